"""C07: saving, loading, interrupted saves."""
import store


def check(r):
    store.check(r)
    r.notes.append('a crash is the end of the process before a file operation or in the middle of a write; loss of data that the operating system accepted (power failure) is not covered')
