"""sample listing orders, shared by both back ends"""


def permuted(names, k, pin=None):
    """order number k; 4 and 5: the name ending with `pin` first / last"""
    n = sorted(names)
    if k == 1:
        n = n[::-1]
    elif k == 2:
        n = n[len(n) // 2:] + n[:len(n) // 2]
    elif k == 3:
        n = n[1::2] + n[::2]
    elif k in (4, 5):
        a = [x for x in n if str(x).endswith(pin)]
        b = [x for x in n if not str(x).endswith(pin)]
        n = a + b[::-1] if k == 4 else b + a
    return n
