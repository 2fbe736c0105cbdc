T = 'contracts on the real functions; obligations from symbolic execution of the /repo source, discharged by z3'
LEAF = ('Proof for all bounds, values and bit positions: every path of the real encode/decode code for the type equals the X.691 oracle; '
        'assumes pyasn1 object contracts, exact int arithmetic, logging without effect, and the oracle text. A bounded random cross-check runs beside it.')
COMP = ('Proof over arbitrary component contents (components by contract: any bits, any octets, any wire length) and bit positions, for an enumerated set of '
        'component lists (bound stated in evidence); assumes pyasn1 object contracts. A bounded random cross-check runs beside it.')
CONS = ('Proof from the source of the constraint classes and of the pyasn1 classes under them, for all bounds and values; '
        'combined constraints of up to 4 parts. A bounded random cross-check runs beside it.')
COMPILER = ('Proof over modules with arbitrary names and numbers for enumerated module shapes (bound stated in evidence): parse actions, ordering and '
            'templates are interpreted from source; pyparsing and its grammar run natively (trusted). A bounded random cross-check runs beside it.')
NOTES = {'C01': (T, 'proof', LEAF), 'C02': (T, 'proof', LEAF), 'C03': (T, 'proof', LEAF), 'C04': (T, 'proof', LEAF),
         'C05': (T, 'proof', LEAF), 'C15': (T, 'proof', CONS)}
for i in ('C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14'):
    NOTES[i] = (T, 'proof', COMP)
for i in ('C16', 'C17', 'C18', 'C19', 'C20'):
    NOTES[i] = (T, 'proof', COMPILER)
NA = {}
