"""property id -> analysis units."""
COMMON_ASSUMPTIONS = {
 'vn': ['integers are analysed without overflow and floating point with exact real arithmetic', 'assertions of the analysed configuration are enabled (Debug build, as in the repository build)', 'allocation does not fail'],
 'type': [], 'flow': ['functions of the standard library and of Boost behave as documented'],
}
TRUSTED = {
 'vn': ['clang 18 front end', 'LLVM 18 inlining/SROA passes used by /verif/src/irx.cpp', '/verif/engine (value numbering, emptiness tests)', 'the specification functions in /verif/witness'],
 'type': ['clang 18 type checker'],
 'flow': ['clang 18 front end', '/verif/engine flow analyses'],
}
VNRULE = 'the value-numbering normal form of the code under analysis equals that of the specification function for all inputs admitted by its preconditions (every path, all memory effects); residual differences are alarms when their path condition is inhabited'
PROPS = {}
def prop(id, title, kind, level, units, floor=1, rule=None, assumptions=()):
    PROPS[id] = dict(title=title, kind=kind, level=level, units=units, floor=floor, rule=rule or VNRULE, assumptions=list(assumptions))
def V(file, select=None, **k):
    u = dict(engine='vn', file=file, **k)
    if select: u['select'] = select
    return u

prop('W01', 'Flat and (i,j,k) indices of a memory window are inverse, in-bounds maps', 'vn', 'proof',
     [V('window.cpp', r'^(flat|ijk|obs|whole|copy|eq|ne)')], floor=8)
prop('W02', 'Splitting a window tiles it exactly', 'vn', 'proof', [V('window.cpp', r'^refine')], floor=6)
prop('W03', 'Field iterators visit exactly the window points in order', 'vn', 'proof', [V('window.cpp', r'^(it|cit|conv)')], floor=40)
ND = ['-DNDEBUG']
prop('N04', 'An assignment writes exactly the cells valid on both sides', 'vn', 'proof',
     [V('nebo.cpp', cflags=ND)], floor=40)
prop('N01', 'Every operator is applied pointwise to matching cells', 'vn', 'proof',
     [V('ops.cpp', cflags=ND), V('ops.cpp', cflags=ND, config='threads')], floor=60)
prop('N07', 'Reductions visit every cell of their region exactly once', 'vn', 'proof',
     [V('reduce.cpp', cflags=ND)], floor=40)
prop('K01', 'Mask membership is exactly the listed points, read in step with fields', 'vn', 'proof', [V('mask.cpp', cflags=ND), V('cond.cpp', r'^leaf', cflags=ND, config='threads')], floor=27)
prop('N02', 'Conditionals take the first true clause; logical operators are pointwise', 'vn', 'proof',
     [V('cond.cpp', cflags=ND), V('cond.cpp', cflags=ND, config='threads')], floor=150)

prop('S01', 'A stencil sums coefficient times operand at its offset points', 'vn', 'proof',
     [V('stencil.cpp', r'^(seq|shf|red|thr|nest|coef)', cflags=ND), V('stencil.cpp', r'^(seq|shf|red|thr|nest|coef)', cflags=ND, config='threads')], floor=40)
prop('S05', 'A stencil result is valid only where every point it reads is valid', 'vn', 'proof',
     [V('stencil.cpp', r'^(gh|ghx)', cflags=ND)], floor=8)
prop('F05', 'Reference-counted field pointers free each field exactly once', 'vn', 'proof', [V('fieldptr.cpp', cflags=ND), V('fieldptr.cpp', cflags=ND, config='threads')], floor=16)

prop('G01', 'Ghost-layer bookkeeping keeps every face separate', 'vn', 'proof', [V('basic.cpp', r'^g_')], floor=19)
prop('G02', 'Integer and coordinate triplets do component-wise arithmetic', 'vn', 'proof', [V('basic.cpp', r'^v_')], floor=9)
prop('V01', 'A field window is the patch plus its ghosts plus boundary cells', 'vn', 'proof', [V('basic.cpp', r'^(bc|win)')], floor=33)

prop('F01', 'A field owns its memory: one block, zeroed, returned exactly once', 'vn', 'proof', [V('field.cpp', r'^own', cflags=ND), V('field.cpp', r'^own', cflags=ND, config='threads')], floor=4)
prop('F02', 'Fields refuse devices they are not on and stay usable afterwards', 'vn', 'proof', [V('field.cpp', r'^(ro|dev)', cflags=ND)], floor=3)
prop('F03', 'Copies and views of a field alias the same cells under their own window', 'vn', 'proof', [V('field.cpp', r'^(rep|rng|idx|view|reshape|valid)', cflags=ND)], floor=12)
WPD = ['-flto=full', '-fwhole-program-vtables', '-fvisibility=hidden']
prop('F06', 'Scratch fields match their prototype and return their memory once', 'vn', 'proof',
     [V('store.cpp', cflags=ND+WPD), V('store.cpp', cflags=WPD), V('store.cpp', cflags=ND+WPD, config='threads')], floor=13)
prop('H01', 'Grid spacing and coordinates match where each field type lives', 'vn', 'proof', [V('grid.cpp', cflags=ND)], floor=49)
prop('E01', 'Analytic field functions and their derivatives follow their formulas', 'vn', 'proof', [V('funcs.cpp', cflags=ND)], floor=13)
prop('F04', 'Field comparisons are exactly the stated pointwise tests', 'vn', 'proof', [V('compare.cpp', cflags=ND+WPD)], floor=25)
prop('B01', 'Boundary conditions set exactly the points named, to the value required', 'vn', 'proof', [V('bcop.cpp', cflags=ND)], floor=74)
prop('B02', 'Masked boundary conditions meet a*outer+b*inner=value exactly at the mask', 'vn', 'proof', [V('nbc.cpp', cflags=ND), V('nbc.cpp', r'^shift', cflags=ND, config='threads')], floor=50)
prop('S02', 'Predefined operators use the grid points nearest to where they deliver', 'vn', 'proof', [V('optypes.cpp', cflags=ND)], floor=130)
prop('S03', 'The operator database gets every operator once with consistent weights', 'vn', 'proof', [V('build.cpp', cflags=ND)], floor=1)
prop('O01', 'The operator database returns what was registered and owns it', 'vn', 'proof', [V('opdb.cpp', cflags=ND)], floor=9)
import os
FAKE = ['-I'+os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness', 'fake')]
prop('T01', 'Every thread-pool operation is one step under the lock and wakes its waiters', 'vn', 'proof',
     [V('tpool.cpp', cflags=ND+FAKE), V('tsched.cpp', cflags=ND+FAKE), V('twork.cpp', cflags=ND+FAKE)], floor=50,
     assumptions=['mutexes, condition variables and threads behave as Boost documents them; a wait may return at any time with any state the other threads can leave behind'])
FAKE2 = ['-I'+os.path.join(os.path.dirname(FAKE[0][2:]), 'fake2')]
prop('T02', 'A thread-parallel assignment does what the sequential one does', 'vn', 'proof', [V('thr.cpp', r'^par', cflags=ND, pre=FAKE2, config='threads'), V('field.cpp', r'^count', cflags=ND, config='threads')], floor=20)
prop('T03', 'Thread-count settings act on the one shared pool and never drop below one', 'vn', 'proof', [V('tmgr.cpp', cflags=ND, pre=['-I'+os.path.join(os.path.dirname(FAKE[0][2:]), 'faket'), '-fno-threadsafe-statics'], config='threads')], floor=20,
     assumptions=['a pool that is resized has the size it was given (that is T01); C++ constructs a function-local static once'])
prop('M01', 'The memory pool hands out distinct blocks that are large enough', 'vn', 'proof', [V('pool.cpp', cflags=ND)], floor=27)
prop('P01', 'Point operators copy exactly the cells listed or flagged, in order', 'vn', 'proof', [V('point.cpp', cflags=ND)], floor=14)
prop('P02', 'Particle operators weight each cell by its share of the particle', 'vn', 'proof', [V('particle.cpp', cflags=ND)], floor=7)
prop('L01', 'Lagrange interpolation and differentiation use the right points and weights', 'vn', 'proof', [V('lagrange.cpp', cflags=ND)], floor=19,
     assumptions=['floating-point arithmetic is exact'])
