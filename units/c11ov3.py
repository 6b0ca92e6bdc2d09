"""C11, v3: when a connection comes to its hook points."""
import c11o
def unit(): return c11o.v3()
