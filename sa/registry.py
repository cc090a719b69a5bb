"""properties -> scenario files and the rule each decides"""
SCENARIOS = {
    'C01': {'files': ['c01.py'], 'rule': 'protection flag of every array that escapes through the public interface, and value numbers reported before and after every public operation'},
    'C02': {'files': ['c02.py'], 'rule': 'no memory write reaches an array of the caller, and no value number reported by an object depends on a later state of a caller array'},
    'C03': {'files': ['c03.py'], 'rule': 'every malformed construction ends in the documented exception on all trace partitions, every well-formed one in the documented value'},
    'C04': {'files': ['c04.py'], 'rule': 'the parameter vector of every derived curve has the value number of the same row selection as its data matrix'},
    'C05': {'files': ['c05.py'], 'rule': 'the data matrix of every edit or selection has the value number of the documented rows or columns of the source'},
    'C06': {'files': ['c06.py'], 'rule': 'every combination of objects of different dimension ends in ValueError (or False) on all trace partitions'},
    'C07': {'files': ['c07.py'], 'rule': 'index terms reported by points and segments equal the normalised index; out-of-range partitions end in the documented exception'},
    'C08': {'files': ['c08.py'], 'rule': 'every quantity of a curve point has the value number of the entry of the curve quantity at its index'},
    'C09': {'files': ['c09.py'], 'rule': 'value numbers of chord lengths, arc length and cumulative arc length equal their definition'},
    'C10': {'files': ['c10.py'], 'rule': 'value numbers of derivatives and Frenet vectors equal their defining formulas over the reported lower quantities and over the coordinates'},
    'C11': {'files': ['c11.py'], 'rule': 'value numbers of curvature and torsion equal their defining formulas'},
    'C12': {'files': ['c12.py'], 'rule': 'every division by a norm is guarded on all trace partitions, a warning event occurs exactly on the degenerate ones, and no memory write reaches a source quantity'},
    'C13': {'files': ['c13.py'], 'rule': 'type, dtype, shape and value numbers of the interpolated curve; every invalid grid ends in ValueError before any call of the method on all trace partitions; warning events exactly on non-covering partitions'},
    'C14': {'files': ['c14.py'], 'rule': 'value numbers of every grid equal its definition; invalid constructions end in the documented exception on all partitions'},
    'C15': {'files': ['c15.py'], 'rule': 'binding of every argument of the interpolation backend at its call (parameter vector, each coordinate, options) and of the grid it is evaluated on'},
    'C16': {'files': ['c16.py'], 'rule': 'binding of every argument of the filter backend at its call, and type, shape and value numbers of the smoothed curve'},
    'C17': {'files': ['c17.py'], 'rule': 'value numbers of the listed names, the class each name resolves to and the registry entries before and after every accepted or refused registration, on all trace partitions'},
    'C18': {'files': ['c18.py'], 'rule': 'exception flow: every exception object entering a public call from a pluggable method leaves it as the __cause__ of the domain error (or as itself where documented) on all trace partitions'},
    'C19': {'files': ['c19.py'], 'rule': 'identity of the segments, class of the data, truth and value numbers of the accessors of every intersection result on all trace partitions'},
    'C20': {'files': ['c20.py'], 'rule': 'on every trace partition of the exact method the reported type equals that of the regime (collinear, parallel, non-coplanar, singular, crossing inside or outside), and the value number of the reported point or overlap that of its definition'},
    'C21': {'files': ['c21.py'], 'rule': 'value numbers of the segment indices of all examined pairs (the method replaced by one that accepts every pair) equal those of the pairs with touching closed boxes, |i-j|>1 and once for self-intersection'},
    'C22': {'files': ['c22.py'], 'rule': 'on every trace partition of the almost method the truth of the result equals that of the tolerance comparison of the shortest connecting segment, and the value numbers of its ends and of the corrected overlap equal their definition'},
    'C23': {'files': ['c23.py'], 'rule': 'on every trace partition the value numbers of the parameters of a generic pair of the vectorised routine equal those of the scalar routine'},
    'C24': {'files': ['c24.py'], 'rule': 'value numbers of the segment accessors equal those of the line equation'},
    'C25': {'files': ['c25.py'], 'rule': 'value numbers of the operator and metric results equal the same operation on the coordinate vectors'},
    'C26': {'files': ['c26.py'], 'rule': 'truth of every comparison, search and count equals that of the row-equality term it is defined by'},
    'C27': {'files': ['c27.py'], 'rule': 'effect analysis: on no path does a public operation write an object of the module heap or call an environment-reading primitive; value numbers after a history of other calls equal those without it'},
    'C28': {'files': ['c28.py'], 'rule': 'the data matrix of each predefined curve has the value number of its defining equation'},
    'C29': {'files': ['c29.py'], 'rule': 'event and value-number check of everything drawn on recorded axes, on every path of the plot class'},
    'C30': {'files': ['c30.py'], 'rule': 'class, dtype, shape, owner and value numbers of a copy or conversion equal those of the source'},
    'C37': {'files': ['c37.py'], 'rule': 'truth of every predicate of position, on every trace partition, equals that of the construction (on or off the line or plane), and the value numbers of an overlap equal those of the common part'},
    'C38': {'files': ['c38.py'], 'rule': 'length, truth, order, class, owner and value numbers of the items of points and curves equal those of the data'},
    'C39': {'files': ['c39.py'], 'rule': 'the rows of a nonsingular curve are value-number equal to the finite rows whose step from the finite row before does not vanish numerically'},
    'C40': {'files': ['c40.py'], 'rule': 'on every path on which a public call raises, the effects on objects that existed before are none and the reported state is value-number equal to the state before'},
    'C41': {'files': ['c41.py'], 'rule': 'calls without an option and calls with its documented default have results of equal value numbers, also after calls with other options'},
}

NOT_APPLICABLE = {
    'C31': 'a statement about limits under refinement of the sampling and about invariance of rounded floating-point formulas: it quantifies over a numerical '
           'convergence rate that no dataflow fact bounds (the formulas themselves are decided under C09-C11)',
    'C32': 'whether scipy interpolants pass through the data is a property of the compiled backend and of float tolerances, not of the source of this repository '
           '(what is handed to the backend is decided under C15)',
    'C33': 'completeness of crossing detection depends on the rounding of a linear solve over all positions and scales; the structural part is decided under C20/C21',
    'C34': 'minimality of a distance over a continuum of candidate points is a real-arithmetic optimality claim; the formulas are decided under C23/C24',
    'C35': 'invariance of numerical rank (an SVD against a tolerance) under motions is a statement about floating-point perturbation, out of reach of a static argument',
    'C36': 'numerical non-vanishing of segments after dropping points is a fixpoint over runtime floating-point values (which points are close after earlier drops)',
}
