from .core import Unsupported
def head(*a): raise Unsupported('while with yield')
def end(*a): raise Unsupported('while with yield')
def brk(*a): raise Unsupported('while with yield')
def exit_(*a): raise Unsupported('while with yield')
