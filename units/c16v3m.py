"""C16, v3: the life of a connection."""
import c16v3
def unit(): return c16v3.message()
