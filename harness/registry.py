"""property: (module, function, level, assumptions); NOTES: (technique, level note)"""
TRUST = ['TLC and the TLA+ specifications of /verif/spec are trusted',
         'the Python replay harness of /verif/harness is trusted']
Q = ('quant', 'check', 'model_checking', TRUST)
CHECKS = {}
NOTES = {}
NOT_APPLICABLE = {}
QT = ('TLA+ state machine of quantities (Quant.tla) checked with TLC; its behaviours '
      '(exhaustive for small bounds, random beyond) are replayed in the code and compared '
      'with the state of the specification')


def reg(prop, module, func, technique, note, level='model_checking'):
    CHECKS[prop] = (module, func, level, TRUST)
    NOTES[prop] = (technique, note)


QN = ('Invariants and action properties hold in all the states explored by TLC; every behaviour '
      'of a small instance and thousands of longer random ones were replayed in the real code '
      '(exact dyadic arithmetic, so comparisons have no tolerance problem). Beyond these '
      'bounds: sampling. Quantities of up to 300 variables of widely different magnitudes '
      '(Wide.tla) likewise.')
for p, what in [
        ('C01', 'Compared: nominal values, derivatives, standard deviations, long computations.'),
        ('C05', 'Compared: all objects re-read after each step, with and without observations.'),
        ('C06', 'Compared: all quantities after accepted, refused and repeated updates.'),
        ('C07', 'Compared: identity and dependence of copies and of what is built from them.'),
        ('C08', 'Compared: joint unpickled state, all protocols, observed or not before.'),
        ('C09', 'Compared: six comparison operators on both sides, truth values.'),
        ('C10', 'Compared: components of all quantities and standard deviations.'),
        ('C11', 'Compared: matrices of lists with repetitions, after updates.')]:
    reg(p, 'quant', 'check', QT, QN + ' ' + what)

DT = ('TLA+ table of domains, derivative terms and singular points (Deriv.tla, exact rational '
      'arguments) enumerated by TLC; every case is run in the code and compared')
DN = ('All the cases of a grid containing the singular points, branch points and domain limits, '
      'for all the ways of giving the arguments, plus random points. The derivative terms are '
      'evaluated in floating point and cross-checked numerically; other points: sampling.')
reg('C02', 'deriv', 'check_c02', DT, DN)
reg('C03', 'deriv', 'check_c03', DT, DN)
reg('C04', 'deriv', 'check_c04', DT + '; behaviours of Quant.tla with undefined derivatives', DN)
reg('C12', 'corrvals', 'check',
    'TLA+ state machine (CorrVals.tla) in which quantities are exact integer vectors, checked '
    'with TLC; behaviours replayed with correlated_values() and compared through covariances',
    'Exhaustive for tiny matrices, random behaviours beyond (up to 6x6 blocks, singular and '
    'badly scaled ones included, with later calculations). Comparison within 2e-13 of the '
    'largest terms (1e-9 for nominal values of later calculations).')
reg('C13', 'wrapping', 'check',
    'TLA+ state machine (Wrap.tla) of wrapped functions: signatures, derivatives provided, '
    'binding of the calls; behaviours generated by TLC are replayed and compared',
    'Random behaviours (several thousands): signatures with positional, keyword-only and variable '
    'parameters, 5 kinds of callables, 4 kinds of derivative containers, 8 kinds of results, several '
    'calls each, and a second function wrapped with the same derivatives.')
reg('C20', 'make', 'check',
    'TLA+ state machine (Make.tla) of creation forms, refusals, updates and accessors; all single '
    'creations (exhaustive) and random histories replayed with arbitrary floating-point numbers',
    'Exhaustive over creation forms, number classes and numeric types; values are random floats.')
FT = ('TLA+ specification of formatting (Decimals.tla, Fmt.tla: exact decimal digits, set of '
      'acceptable texts) whose cases are generated by TLC; each is formatted by the code')
FN = ('Exhaustive over digits at the edges of the rules and over options and layouts for a few '
      'numbers, random beyond (up to 11 digits, exponents up to 270, all options together). ')
reg('C14', 'fmt', 'check_c14', FT + ' and the digits shown are compared', FN +
    'Either rounding is accepted for exact decimal ties; at most 14 digits are displayed.')
reg('C15', 'fmt', 'check_c15', FT + ' and the whole texts are compared', FN +
    'The documented global customizations are set for some of the behaviours. '
    'Combinations without a documented meaning (zero padding with an alignment...) are left out.')
reg('C16', 'parsing', 'check_c16',
    'TLA+ specification of the documented texts and of the numbers they denote (Reading.tla); '
    'TLC gives the reading of all the short texts and of random longer ones (Parse.tla), '
    'compared with what the code reads or refuses',
    'Exhaustive over texts of at most 5 tokens of an alphabet of 8 and 4 tokens of three other '
    'alphabets of 10 or 11; random derivations of all the forms, with up to 3 alterations.')
reg('C17', 'parsing', 'check_c17',
    'TLA+ composition of the formatting and reading specifications (RoundTrip.tla; TLC checks '
    'that texts denote the numbers shown); the same round trips are done in the code',
    'All combinations of types and options for a few numbers, random numbers and specifications '
    'beyond; representations of random floats with all their bits.')
reg('C18', 'arrays', 'check_c18',
    'TLA+ state machine of arrays (Arrays.tla) that says which scalar calculation each element '
    'is, checked with TLC; behaviours replayed with unumpy and with scalars and compared',
    'Thousands of random histories with arrays of up to 3 dimensions (0-d and empty included), '
    'matrices and lists, mixed contents, all functions and operators, broadcasting, reductions. '
    'The scalar calculations themselves are decided by C01 to C04.')
reg('C19', 'mat', 'check_c19',
    'TLA+ specification of inverses, pseudo-inverses and their derivatives in exact rational '
    'arithmetic (Mat.tla; TLC checks the defining identities), compared with the code for '
    'matrices generated by TLC',
    'All the 2x2, 1x4 and 3x1 matrices with elements 0..2 and any subset of uncertain elements '
    '(distinct or shared), random ones up to 4x4 beyond, with combinations of variables, '
    'scaled rows, four kinds of containers, cut-offs with known singular values.')
reg('C21', 'fixers', 'check_c21',
    'TLA+ grammar of user programs and of their update (Fixers.tla); all the small terms and '
    'random programs generated by TLC are updated by the code and compared (syntax trees, '
    'spacing, comments, second update, command line)',
    'Exhaustive over all pairs of nested forms, random programs of up to 10 lines with nested '
    'forms beyond.')
reg('C22', 'threads', 'check_c22',
    'TLA+ specification of concurrent expansion (Expand.tla): TLC explores all the interleavings '
    'of small instances; scenarios of the specification are run in real threads under imposed '
    'interleavings, and compared with its results',
    'All the interleavings of the specification for 2 threads and small graphs. In the code: one '
    'interruption at each (or 70) bytecode instruction(s) of a thread, random double '
    'interruptions and schedules of the specification, with up to 4 threads. Independent operations '
    '(Services.tla) of 23 kinds: interruptions after all (or 24) accesses to attributes, items, '
    'globals and closures, with up to 3 threads.')
reg('C23', 'interop', 'check_c23',
    'TLA+ state machine of operations between quantities and other objects (Interop.tla: '
    "Python's protocol, refusals, calls to foreign methods), checked with TLC; all single "
    'operations and random histories replayed',
    'All the (operation, kind of operand, side, kind of quantity) combinations, random sequences '
    'of 12 operations beyond; the numbers given are a few for each kind.')
