"""The oracle: ITU-T X.691 (2015) BASIC-PER ALIGNED, written once, independently of /repo.

Plain Python over ints and '0'/'1' strings.  The same text is executed by CPython (replays, failing-input
search, validation of assumptions) and interpreted symbolically by /verif/pyver when the obligations are
generated.  A *field* is a pair (octet_aligned, bits); `layout` places a list of fields at a bit position.
"""


class Unsupported(Exception):
    """A value whose encoding needs fragmentation (>= 16K) or >64 extension additions: the codec must refuse."""


def uint(v, width):                                   # 11.3: non-negative-binary-integer in `width` bits
    return '{0:0{1}b}'.format(v, width) if width > 0 else ''


def octets_for(v):                                    # least number of octets (>=1) holding v >= 0
    k = (v.bit_length() + 7) // 8
    return k if k > 0 else 1


def twos_octets(v):                                   # least k >= 1 with -2^(8k-1) <= v < 2^(8k-1)
    m = v if v >= 0 else -v - 1
    return m.bit_length() // 8 + 1


def twos(v, width):                                   # 11.4: 2's-complement-binary-integer
    return uint(v if v >= 0 else v + 2 ** width, width)


def len_unconstrained(n):                             # 11.9.3.5 - 11.9.3.8
    if n <= 127:
        return [(True, '0' + uint(n, 7))]
    if n < 16384:
        return [(True, '10' + uint(n, 14))]
    raise Unsupported('fragmentation')


def cwn(n, lb, ub):                                   # 11.5.7.1-3, range <= 64K
    r = ub - lb + 1
    if r == 1:
        return []
    if r <= 255:
        return [(False, uint(n - lb, (r - 1).bit_length()))]
    if r == 256:
        return [(True, uint(n - lb, 8))]
    return [(True, uint(n - lb, 16))]


def constrained_integer(n, lb, ub):                   # 11.5 with 13.2.6 a) for range > 64K
    if ub - lb + 1 <= 65536:
        return cwn(n, lb, ub)
    k = octets_for(n - lb)
    return cwn(k, 1, octets_for(ub - lb)) + [(True, uint(n - lb, 8 * k))]


def semi_constrained_integer(n, lb):                  # 11.7 with 11.9
    k = octets_for(n - lb)
    return len_unconstrained(k) + [(True, uint(n - lb, 8 * k))]


def unconstrained_integer(n):                         # 11.8 with 11.9
    k = twos_octets(n)
    return len_unconstrained(k) + [(True, twos(n, 8 * k))]


def normally_small(n):                                # 11.6
    if n <= 63:
        return [(False, '0' + uint(n, 6))]
    return [(False, '1')] + semi_constrained_integer(n, 0)


def in_root(v, lb, ub):
    if lb is not None and v < lb:
        return False
    if ub is not None and v > ub:
        return False
    return True


def integer_root(v, lb, ub):
    if lb is not None and ub is not None:
        return constrained_integer(v, lb, ub)
    if lb is not None:
        return semi_constrained_integer(v, lb)
    return unconstrained_integer(v)


def integer(v, ext, lb, ub):                          # 13
    if not ext:
        return integer_root(v, lb, ub)
    if in_root(v, lb, ub):
        return [(False, '0')] + integer_root(v, lb, ub)
    return [(False, '1')] + unconstrained_integer(v)


def boolean(v):                                       # 12
    return [(False, '1' if v else '0')]


def enumerated(is_root, index, n_root, ext):          # 14; index is the 14.1 enumeration index / addition index
    if not ext:
        return cwn(index, 0, n_root - 1)
    if is_root:
        return [(False, '0')] + cwn(index, 0, n_root - 1)
    return [(False, '1')] + normally_small(index)


def sized(bits, n, unit_threshold, lb, ub):           # 16.8-16.11 / 17.5-17.8 (bits of n units)
    if ub is not None and ub == 0:
        return []
    if lb is not None and ub is not None and lb == ub and ub < 65536:
        return [(n > unit_threshold, bits)]
    body = [(True, bits)] if n > 0 else []
    if ub is not None and ub < 65536:
        return cwn(n, lb if lb is not None else 0, ub) + body
    return len_unconstrained(n) + body


def string(bits, n, unit_threshold, ext, lb, ub):     # 16 (threshold 16 bits) and 17 (threshold 2 octets)
    if not ext:
        return sized(bits, n, unit_threshold, lb, ub)
    if in_root(n, lb, ub):
        return [(False, '0')] + sized(bits, n, unit_threshold, lb, ub)
    return [(False, '1')] + len_unconstrained(n) + ([(True, bits)] if n > 0 else [])


def sequence_of_header(n, ext, lb, ub):               # 20, followed by the components' fields
    head = []
    if ext:
        if not in_root(n, lb, ub):
            return [(False, '1')] + len_unconstrained(n)
        head = [(False, '0')]
    if lb is not None and ub is not None and lb == ub and ub < 65536:
        return head
    if ub is not None and ub < 65536:
        return head + cwn(n, lb if lb is not None else 0, ub)
    return head + len_unconstrained(n)


def choice_header(ext, is_addition, index, n_root):   # 23; additions are followed by an open type
    if is_addition:
        return [(False, '1')] + normally_small(index)
    return ([(False, '0')] if ext else []) + cwn(index, 0, n_root - 1)


def open_type(fields):                                # 11.2
    bits = complete(fields)
    return len_unconstrained(len(bits) // 8) + [(True, bits)]


def layout(fields, pos):                              # bits contributed by fields when placed at bit offset pos
    out = ''
    for aligned, bits in fields:
        if aligned and len(bits) > 0:
            pad = -(pos + len(out)) % 8
            out = out + '0' * pad
        out = out + bits
    return out


def complete(fields):                                 # 11.1
    out = layout(fields, 0)
    if len(out) == 0:
        return '00000000'
    return out + '0' * (-len(out) % 8)


def sequence_root(components):
    """components: list of (kind, present, fields); kind in 'mandatory', 'optional', 'default'.  19.2-19.6"""
    bitmap = ''
    body = []
    for kind, present, fields in components:
        if kind != 'mandatory':
            bitmap = bitmap + ('1' if present else '0')
        if present:
            body = body + fields
    return ([(False, bitmap)] if bitmap else []) + body


def sequence(ext, components, additions):
    """additions: list of (present, fields) in order of 19.7-19.9, each group counted as one addition."""
    root = sequence_root(components)
    if not ext:
        return root
    bitmap = ''
    body = []
    for present, fields in additions:
        bitmap = bitmap + ('1' if present else '0')
        if present:
            body = body + open_type(fields)
    if '1' not in bitmap:
        return [(False, '0')] + root
    if len(bitmap) > 64:
        raise Unsupported('more than 64 extension additions')
    return [(False, '1')] + root + [(False, '0' + uint(len(bitmap) - 1, 6) + bitmap)] + body
