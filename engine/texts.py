"""Statement of every property (source of properties.jsonl)."""
T = {}
NA = {}
def t(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    T[id] = dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over.split(), text=' '.join(qtext.split())),
                 why_tests_cant=' '.join(why.split()), anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech]))
def na(id, reason): NA[id] = ' '.join(reason.split())
S = 'spatialops/structured/'; N = 'spatialops/'

t('W01', 'Flat and (i,j,k) indices of a memory window are inverse, in-bounds maps',
  '''The map from a grid point of a memory window to its position in storage is one-to-one, runs x fastest, then y, then z, stays inside the
  allocation, and is inverted exactly by the reverse map. Counts of total and local points equal the products of the parent and window extents, and two windows
  compare equal exactly when parent size, offset and extent are all equal.''',
  'inputs', 'all parent sizes, offsets, extents and points inside the window, including extents of one',
  'the tests index a handful of fixed shapes; an off-by-one that needs a particular combination of offset and extent is not sampled',
  S+'MemoryWindow.h '+S+'MemoryWindow.cpp', [('flat_index / ijk_index_from_local / glob_npts / local_npts', S+'MemoryWindow.h')])
t('W02', 'Splitting a window tiles it exactly',
  '''When a window is split into a grid of sub-windows, every point of the window belongs to exactly one sub-window, sub-windows lie inside the window, and their
  sizes along each direction differ by at most one, with larger ones first. Invalid splits are rejected by an assertion.''',
  'inputs configurations', 'all windows, all splits from one up to the extent in each direction, all sub-window locations',
  'tests run a few splits of fixed sizes where the remainder pattern is benign', S+'MemoryWindow.cpp', [('refine', S+'MemoryWindow.cpp')])
t('W03', 'Field iterators visit exactly the window points in order',
  '''Stepping a field iterator (mutable or const; by one, by an arbitrary positive or negative distance, or by indexing) always lands on the storage position of the
  point that many places further in x-fastest order of the window. The range from begin to end therefore visits each point of the window exactly once, and end is reached
  exactly after as many steps as the window has points.''',
  'inputs', 'all parent sizes, offsets, extents, starting points and step distances that stay within the window',
  'tests walk a few shapes forward; wrap-around arithmetic for other shapes, backward and random-access steps are not covered', S+'MemoryWindow.h',
  [('FieldIterator / ConstFieldIterator', S+'MemoryWindow.h')])
t('N01', 'Every operator is applied pointwise to matching cells',
  '''The value of a field expression at a point is the named arithmetic, comparison, or math function applied to the operands' values at that same point, in the written
  operand order, whichever mix of scalars, fields, single-value fields and sub-expressions is used, and whether evaluated sequentially, over a sub-range of the
  points (as done for threads), or inside a reduction. The ghost extent available in an expression is the smaller of its operands' extents on every face, and a reduction over
  it ends with its shortest field operand.''',
  'inputs programs configurations', 'all operators and functions of the expression language, all admissible operand-kind combinations, all operand values; serial and threaded builds',
  'each operator has about one hundred overloads and modes; tests compare a few combinations on random data', N+'NeboOperators.h '+N+'NeboRhs.h',
  [('operator factories and their eval/next/init/resize/reduce_init/possible_ghosts', N+'NeboOperators.h'), ('leaf operands', N+'NeboRhs.h')])
t('N04', 'An assignment writes exactly the cells valid on both sides',
  '''Assigning an expression to a field writes, on each face, exactly as many ghost layers as are valid on both the destination and every operand (counting extra boundary
  cells), pairs each written cell with the same grid point of the operands, and touches nothing else; a scalar right-hand side writes every cell. The interior form writes exactly
  the interior cells. An operand too small to cover the destination's interior is rejected before anything is written.''',
  'inputs configurations', 'all interior extents, all ghost counts per face and side on destination and operand, with and without physical boundaries, in x, y and z',
  'tests use equal ghost counts on a few shapes; asymmetric ghosts and boundary combinations are not sampled',
  N+'NeboLhs.h '+N+'NeboBasic.h '+N+'NeboAssignment.h '+N+'NeboRhs.h', [('sequential_assign', N+'NeboLhs.h'), ('calculate_valid_ghost, resize_ghost', N+'NeboBasic.h')])
t('N02', 'Conditionals take the first true clause; logical operators are pointwise',
  '''A conditional expression takes, at every point, the value of the first clause (in written order) whose condition is true at that point, and of the final default when none is;
  no later clause can override an earlier one, whatever mix of plain values, fields and expressions the clauses use. Conditions built with and, or and not from plain booleans, comparisons and
  masks evaluate pointwise by the usual truth tables, in every evaluation mode.''',
  'inputs programs configurations', 'all condition kinds and value kinds for one and two clauses, longer mixed chains, all truth assignments and operand values; serial and threaded evaluation',
  'there are dozens of overloads per clause kind; tests try a few chains with fixed data',
  N+'NeboCond.h '+N+'NeboOperators.h', [('clause builders and CondExpr/ClauseSum evaluation', N+'NeboCond.h'), ('AndOp/OrOp/NotOp', N+'NeboOperators.h')])
t('N07', 'Reductions visit every cell of their region exactly once',
  '''A sum, minimum, maximum, norm or user-defined reduction of a field or expression combines the values of every cell of its region exactly once, starting from the first:
  the whole valid window for the plain forms and the interior for the interior forms. The result does not depend on storage outside that region.''',
  'inputs', 'all extents, ghost counts and boundary flags per direction, all reductions, plain and interior, of fields and of expressions',
  'tests compare reductions on a few shapes with equal ghosts; a skipped row or a wrong starting corner shows only for particular shapes',
  N+'NeboReductions.h '+N+'NeboRhs.h '+N+'NeboBasic.h', [('NeboReductions entry points', N+'NeboReductions.h'), ('NeboConstField reduction mode', N+'NeboRhs.h')])
t('K01', 'Mask membership is exactly the listed points, read in step with fields',
  '''A mask built from a list of points answers true at exactly those points (interior-relative, ghost points included when listed) and false at every other point of its window. Walking the mask,
  by iterator or inside an expression in any evaluation mode, yields at each step the membership of the same point a field walk is at.''',
  'inputs', 'all window shapes, ghost counts and point lists; all bit positions across word boundaries',
  'tests use a few small masks; packing errors appear only across word boundaries and for particular shapes',
  S+'SpatialMask.h '+S+'BitField.h '+N+'NeboMask.h', [('BitField construction and iterators', S+'BitField.h'), ('SpatialMask', S+'SpatialMask.h'), ('NeboMask modes', N+'NeboMask.h')])
t('S01', 'A stencil sums coefficient times operand at its offset points',
  '''At every point, a stencil operator yields the sum over its stencil points of the coefficient paired with that point times the operand at the point displaced by that offset;
  a summing stencil uses unit weights and an averaging stencil equal weights adding to one. This holds for any number of points, for operands that are fields, expressions
  or other stencils, and in assignments, threaded sub-ranges and reductions alike; asking for a coefficient by position returns the one supplied at that position, and positions out of range are rejected.''',
  'inputs programs', 'one to four (and nested) stencil points with positive, negative and zero offsets in all directions, all coefficient and operand values, all window shapes; serial and threaded builds',
  'tests apply the built-in operators to smooth functions and accept discretisation error, so a swapped coefficient or offset in one evaluation mode can pass',
  N+'NeboStencils.h '+N+'NeboStencilBuilder.h '+S+'stencil/OperatorTypes.h',
  [('Stencil/SumStencil modes and argument construction', N+'NeboStencils.h'), ('coefficient and point collections', N+'NeboStencilBuilder.h')])
t('S05', 'A stencil result is valid only where every point it reads is valid',
  '''The region on which a stencil expression may be evaluated is exactly the set of points all of whose stencil reads fall in the operand's valid region: on each face the
  ghost extent shrinks by the largest displacement of the stencil toward that face, and never grows.''',
  'inputs programs', 'all ghost counts on every face and stencils reaching any distance in each of the six directions',
  'tests only use stencils reaching one cell with one or more ghosts on every side',
  N+'NeboStencils.h '+N+'NeboStencilBuilder.h '+S+'GhostData.h', [('possible_ghosts of point collections and stencils', N+'NeboStencilBuilder.h'), ('point_to_ghost', S+'GhostData.h')])
t('F05', 'Reference-counted field pointers free each field exactly once',
  '''Whatever sequence of copying, assigning, detaching and destroying is applied to shared field pointers, a field stays alive while any pointer refers to it, and is destroyed exactly once,
  when the last one lets go; a field taken from the store has its memory handed back exactly once, at that moment, and others never. The reported count equals the number of pointers
  sharing the field, and null pointers and self-assignment are harmless.''',
  'histories inputs', 'all sharing patterns of target and source (null, sole owner, shared by two or three, already sharing the same field, store-owned or not) before every operation; by induction all histories of operations',
  'tests never copy null pointers, detach shared ones or assign a pointer to itself; a double free or leak does not fail a value comparison',
  S+'SpatialFieldStore.h', [('SpatFldPtr', S+'SpatialFieldStore.h'), ('restore_field', S+'SpatialFieldStore.h')])

t('G01', 'Ghost-layer bookkeeping keeps every face separate',
  '''The six ghost counts of a field (minus and plus face in x, y, z) are stored, read, replaced, copied, added, subtracted, minimised and compared face by face, with no mixing between faces.
  The unlimited ghost count of plain scalars absorbs additions and may never be subtracted, a displacement needs ghosts only on the face it points to, and negative counts are rejected in debug builds.''',
  'inputs', 'all ghost counts on all six faces, all displacements',
  'tests use equal counts on all faces, for which every mix-up of faces is invisible', S+'GhostData.h '+S+'GhostData.cpp',
  [('GhostData operations', S+'GhostData.cpp'), ('min / point_to_ghost', S+'GhostData.cpp')])
t('G02', 'Integer and coordinate triplets do component-wise arithmetic',
  '''Sums, differences, products, quotients, scaling, minima, comparison and conversion of three-component vectors act on each component separately and leave their operands unchanged;
  two vectors are equal exactly when all three components are. Converting a triplet to a flat position in a box and back is lossless, with x fastest and z slowest.''',
  'inputs', 'all component values; all boxes and all points inside them',
  'a handful of fixed vectors is tested', S+'Numeric3Vec.h '+S+'IntVec.h', [('Numeric3Vec', S+'Numeric3Vec.h'), ('ijk_to_flat / flat_to_ijk / min', S+'IntVec.h')])
t('V01', 'A field window is the patch plus its ghosts plus boundary cells',
  '''The storage window of a field on a patch has, in each direction with more than one cell, the patch size plus the ghosts on both faces plus the extra plane the field type has when a
  physical boundary lies on the plus face, and one point in a direction with a single cell. Only face-type fields that are not already shifted off their cell in their own face direction, and staggered
  volume fields in their staggered direction, carry that extra plane, and only there.''',
  'inputs configurations', 'all patch sizes, ghost counts and boundary flags; all sixteen field types',
  'tests fix a few sizes with equal ghosts and boundaries on all or no sides', S+'FVTools.h '+S+'BoundaryCellInfo.h '+S+'FVStaggeredLocationTypes.h',
  [('get_window_with_ghost / get_dim_with_ghost', S+'FVTools.h'), ('BoundaryCellInfo', S+'BoundaryCellInfo.h'), ('BCExtra traits', S+'FVStaggeredLocationTypes.h')])
t('F01', 'A field owns its memory: one block, zeroed, returned exactly once',
  '''A field created without storage takes exactly one block of the size of its parent window from the pool and zeroes its window; one given values to copy takes a block and stores the values in window order;
  one given external storage uses that and takes none. The block is given back exactly once, when the owning field is destroyed; copies, views and reshaped views of a field use the same block and never
  take or return one.''',
  'inputs histories', 'all window shapes, ghost counts and boundary flags; every way of constructing a field; serial and threaded builds',
  'a leak or double return does not change any value a test compares', S+'SpatialField.h', [('constructors, destructor, reset_values', S+'SpatialField.h')])
t('F02', 'Fields refuse devices they are not on and stay usable afterwards',
  '''Asking a field for its values on a device where they were never made available, or to be made available on a device this build does not support, is refused with an exception. The refusal changes
  nothing: the field keeps its values, window and ghosts and stays writable, exactly as it does after a request for the device it already lives on.''',
  'inputs fault_sequences', 'all field shapes, every device type, any device index', 'the tests of a build without GPU support never make such requests', S+'SpatialField.h',
  [('add_consumer / find_consumer / field_values', S+'SpatialField.h')])
t('F03', 'Copies and views of a field alias the same cells under their own window',
  '''A field reports exactly the window, ghosts, boundary flags and device it was built with, and so does a copy. Element access, ranges and interior ranges address the parent storage through the current window. A view onto another window of a field,
  or a reshaped one, addresses the same storage under the new window; if the view cuts into the interior it, and every view made of it, refuses interior ranges. Reducing the valid ghosts
  shrinks the window by exactly that many layers per face, and restoring them restores it.''',
  'inputs', 'all parent, field and view windows, ghost counts and boundary flags', 'tests use whole-memory windows with equal ghosts', S+'SpatialField.h',
  [('windowed constructor, reshape, begin/end, interior_begin/end, operator(), operator[]', S+'SpatialField.h'), ('reset_valid_ghosts', S+'SpatialField.h')])
t('F06', 'Scratch fields match their prototype and return their memory once',
  '''A scratch field obtained from a prototype field of the same or another field type has exactly the window, ghosts and boundary flags that a field of its type with the prototype's valid ghosts on the
  prototype's patch has, and its own zero-offset storage taken as one block of exactly that size. It is zeroed in debug builds, two scratch fields never share storage, and the block goes back exactly once, when the
  last pointer to the field lets go. Requests for memory the build does not support are refused.''',
  'inputs configurations histories', 'all patch sizes (including single-cell directions), ghost counts, reduced valid ghosts and boundary flags; eleven pairs of prototype and field types; debug, release and threaded builds',
  'tests request scratch fields from fresh cubic fields with equal ghosts and compare sizes at most', S+'SpatialFieldStore.h',
  [('get / get_from_window / restore_field', S+'SpatialFieldStore.h')])
t('H01', 'Grid spacing and coordinates match where each field type lives',
  '''The spacing of a grid in a direction is its length divided by its number of cells there. Setting a coordinate field stores, at every point of the field's window, ghosts included, the position of that point: spacing times its
  distance from the first interior point, plus half a spacing in the directions in which the field type lives at cell centres and nothing in those in which it lives on faces.''',
  'inputs', 'all grid extents and lengths; all sixteen field types in all three directions; all windows and ghost counts, single-cell directions included',
  'tests compare a few field types on fields with equal ghosts', S+'Grid.h '+S+'Grid.cpp', [('Grid, spacing, set_coord', S+'Grid.cpp')])
t('E01', 'Analytic field functions and their derivatives follow their formulas',
  '''The linear, sinusoidal, Gaussian and hyperbolic-tangent field functions store, at every point, their defining formula of the coordinate at that point, and their first and second derivatives store
  the exact derivative of that formula. The coordinate fields handed back are the ones supplied, in order.''',
  'inputs', 'all parameter values, coordinates and field shapes', 'tests use these functions as reference data for the discretisation and accept its error; an error in a derivative formula at non-default parameters is not seen',
  'spatialops/FieldFunctions.h', [('LinearFunction1D, SinFunction, GaussianFunction, HyperTanFunction', 'spatialops/FieldFunctions.h')])
t('F04', 'Field comparisons are exactly the stated pointwise tests',
  '''Two fields, or a value and a field, compare equal exactly when every point passes the test: identical values when the tolerance is zero, otherwise absolute difference, relative difference (against the magnitude of the
  first operand plus the absolute tolerance) or distance in units in the last place at most the magnitude of the tolerance; the unequal form is the negation. The default absolute tolerance is the norm of the field times the
  magnitude of the relative tolerance times one millionth. Fields with different windows are refused with an exception, and the comparison changes neither field.''',
  'inputs', 'all field shapes and windows, all values and tolerances of either sign; field-field and value-field forms, equal and unequal forms',
  'tests compare a few fields with positive tolerances and differences at a few places', S+'FieldComparisons.h', [('field_equal, field_equal_abs, field_equal_ulp and their negations', S+'FieldComparisons.h')])
t('B01', 'Boundary conditions set exactly the points named, to the value required',
  '''A boundary condition built on a two-point operator changes, at every interior-based point it names, exactly one cell of the field: the outer cell of the operator on the minus side (also when no side is given) or the outer cell
  on the plus side; the cell gets the value for which the operator, applied at that point, gives the requested boundary value. A direct boundary condition stores the value in the named cells. One point and a list of
  points (indexed with the window the list is given with) act alike, point after point.''',
  'inputs', 'all patch sizes, points, coefficients, boundary values and field contents; gradient and interpolant operators in three directions, staggered and collocated, on each side; single points and lists of two points',
  'tests apply a few conditions on one patch with uniform spacing; a swapped coefficient or cell is invisible where the two coefficients have equal magnitude or for symmetric data',
  S+'stencil/FVStaggeredBCOp.h '+S+'FVStaggeredBCTools.h', [('BoundaryConditionOp', S+'stencil/FVStaggeredBCOp.h'), ('BoundaryCondition', S+'FVStaggeredBCTools.h')])
t('B02', 'Masked boundary conditions meet a*outer+b*inner=value exactly at the mask',
  '''Applying a boundary condition through a mask on the faces sets, at every masked face, the cell on the requested side to (value - inner coefficient times the cell on the other side) divided by the outer coefficient, where value is a field, a number
  or an expression on the faces; every other cell keeps its value. The mask of a cell's minus or plus face is the mask point displaced by that face's offset, in sequential, threaded and reduction evaluation alike.''',
  'inputs', 'all patch sizes, masks, coefficients, values and field contents; three directions and both sides for scalar and staggered volumes; boundary patches; operators reaching one cell further in',
  'tests use one cubic patch with a mask of a few points and symmetric coefficients', 'spatialops/NeboStencilBuilder.h spatialops/NeboStencils.h', [('NeboBoundaryConditionBuilder, NeboMaskShiftBuilder', 'spatialops/NeboStencilBuilder.h'), ('NeboMaskShift', 'spatialops/NeboStencils.h')])
t('S02', 'Predefined operators use the grid points nearest to where they deliver',
  '''Every predefined two- and four-point operator reads exactly the source points lying half a cell below and above the place where its destination type lives, in each direction in which the two types lie apart, low point first; operators between types
  that share a location copy the value. Finite-difference operators read the two direct neighbours in their direction, low first, and the box filters are the plain average of all neighbours in their directions.''',
  'inputs programs', 'all predefined operator types (131 source/destination/kind combinations and the six lower-dimensional box filters), all field contents, coefficients and patch sizes',
  'tests apply a subset of the operators to smooth functions and check convergence within tolerances; many type combinations are never evaluated', N+'NeboStencilBuilder.h '+S+'stencil/FVStaggeredOperatorTypes.h '+S+'FVStaggeredFieldTypes.h',
  [('Stencil2Collection, Stencil4Collection, FDStencilCollection, BoxFilter*', N+'NeboStencilBuilder.h'), ('OperatorTypeBuilder', S+'stencil/FVStaggeredOperatorTypes.h'), ('field locations', S+'FVStaggeredFieldTypes.h')])
t('S03', 'The operator database gets every operator once with consistent weights',
  '''Building the stencils for a grid registers every predefined operator exactly once. Interpolants get equal weights that add up to one; gradients and divergences get minus and plus one over the spacing in their own direction, where the
  spacing is the length divided by the number of cells; centred finite differences get half of that.''',
  'inputs', 'all cell counts and lengths; all 131 registered operators', 'tests use a subset of the operators, often on cubic domains with equal spacings, where a wrong direction is invisible',
  S+'stencil/StencilBuilder.cpp', [('build_stencils', S+'stencil/StencilBuilder.cpp')])
t('O01', 'The operator database returns what was registered and owns it',
  '''Every registration yields an identifier of its own within its operator type, and that identifier retrieves exactly that operator. Without an identifier the only operator of a type is returned; a type that was never registered, an identifier that was
  never handed out, and a missing identifier when several operators exist are refused with an exception. Each operator is deleted exactly once, when the database is emptied or goes away, and an emptied database can be used again.''',
  'histories inputs', 'all identifiers, with registrations of two operator types interleaved (three and two operators)', 'tests retrieve operators that exist, mostly one per type; deletion is not observed at all',
  'spatialops/OperatorDatabase.h', [('register_new_operator, retrieve_operator, empty_database, OpStore', 'spatialops/OperatorDatabase.h')])
t('T01', 'Every thread-pool operation is one step under the lock and wakes its waiters',
  '''A scheduled task is queued once, in policy order (first-in, last-in or priority), wakes a worker and is run exactly once with the lock released; pools grow to the requested number of workers, shrink by exactly the surplus, replace workers lost to an exception, and hold back those above the active limit.
  Waiting returns only once the number of unfinished tasks is at most the threshold or the time has passed, and whoever waits is woken by every change that could end the wait.
  Releasing the last handle finishes the queued tasks and joins all workers, and the semaphore never loses or invents a count.''',
  'schedules histories', 'every state of the pool and every behaviour of the other threads at each wait; task queues of up to four tasks for the order', 'tests run a handful of schedules; a lost wake-up or an update outside the lock shows only under rare timing',
  N+'threadpool/threadpool/detail/pool_core.hpp '+N+'threadpool/threadpool/detail/worker_thread.hpp '+N+'threadpool/threadpool/scheduling_policies.hpp '+N+'threadpool/threadpool/shutdown_policies.hpp '+N+'threadpool/threadpool/pool.hpp '+N+'Semaphore.h',
  [('pool_core::schedule, wait, resize, resize_active, execute_task', N+'threadpool/threadpool/detail/pool_core.hpp'), ('worker_thread::run', N+'threadpool/threadpool/detail/worker_thread.hpp'), ('Semaphore::post, wait', N+'Semaphore.h')])
t('T02', 'A thread-parallel assignment does what the sequential one does',
  '''With an active thread pool an assignment is cut into the number of chunks the field asks for, along the last direction that is long enough (uncut when none is), each cell of the region lies in exactly one chunk, and each chunk computes, cell by cell, what the
  sequential assignment computes there, from the operand cells at the same place. The assignment returns only after every chunk has reported completion, and each chunk reports exactly once, when its cells have been written. A field asks for one chunk per configured thread unless told otherwise, and its copies and views keep the number.''',
  'inputs configurations', 'all patch sizes, and all ghost extents, boundary layers and field contents (ghost-free patches for some of the cases): one to four chunks in each direction, with and without ghosts, from a number, a copy and an expression of two operands',
  'tests run with one or two thread counts on patches whose size is a multiple of them; a wrong chunk boundary or a missing wait is invisible then',
  N+'NeboLhs.h '+N+'NeboBasic.h '+N+'NeboRhs.h '+S+'MemoryWindow.cpp '+S+'SpatialField.h', [('thread_parallel_assign', N+'NeboLhs.h'), ('nebo_find_partition, nebo_next_partition', N+'NeboBasic.h'), ('NeboField<Resize>, NeboConstField<Resize>', N+'NeboLhs.h')])
t('P01', 'Point operators copy exactly the cells listed or flagged, in order',
  '''A point operator built from a list of flat indices moves values between the cells with these indices and the entries of the point field, entry by entry in the order of the list: field-to-point reads them, point-to-field writes them and leaves every other cell as it was.
  Built from a field of flags, it uses the cells whose flag is not zero, in flat-index order.''',
  'inputs', 'all field shapes and contents and all index lists of any length; flag fields of up to four cells, any flags', 'tests move one list of points and one flag pattern through one field',
  N+'pointfield/PointOperators.h', [('PointToField, FieldToPoint', N+'pointfield/PointOperators.h')])
t('P02', 'Particle operators weight each cell by its share of the particle',
  '''On a uniform one-dimensional mesh, wherever it starts, a particle takes from each cell (cell to particle), or gives to each cell (particle to cell), the value times the fraction of the particle's size that lies in that cell; particle-to-cell starts from zero and adds up all particles.
  A particle whose size is zero takes and gives nothing. A mesh whose spacing is not uniform is refused when the operator is built.''',
  'inputs', 'all mesh origins and spacings, particle positions, sizes and values inside the mesh; up to three particles for cell to particle, any number for particle to cell; meshes of four cells for the refusal', 'the test has one particle that starts exactly on a cell face of a mesh whose first face is at zero',
  N+'particles/ParticleOperators.h', [('CellToParticle, ParticleToCell', N+'particles/ParticleOperators.h')])
t('T03', 'Thread-count settings act on the one shared pool and never drop below one',
  '''Setting the soft or hard thread count resizes exactly the shared pool it names to the requested number, with every request below one taken as one, and returns the number set; the getters report what was last set.
  Each shared pool is made once with the configured number of workers and registered once under the address the settings use.
  Every access to the registry of pools happens while its lock is held and released exactly once, on every path; settings of an unregistered pool change nothing and return -1.''',
  'inputs histories', 'every requested count, every state of the registry and of both pools', 'tests set two or three counts of one pool; a wrong pool, a dropped clamp, a leaked lock or a stale record shows only after particular sequences',
  N+'ThreadPool.cpp '+N+'SpatialOpsTools.h',
  [('ThreadPoolResourceManager::insert, remove, resize, resize_active, get_worker_count, get_max_active_worker_count', N+'ThreadPool.cpp'), ('set_soft_thread_count, set_hard_thread_count', N+'SpatialOpsTools.h')])
t('M01', 'The memory pool hands out distinct blocks that are large enough',
  '''A block obtained from the pool is at least as large as requested and is not in use by anybody else; a block that was returned serves the next request it is large enough for. The pool reports how many blocks it has allocated and how many are in use,
  also after an allocation failed, releases each returned block exactly once when it goes away, ignores blocks returned after that, and refuses memory of a kind that is not configured without changing anything.''',
  'histories inputs fault_sequences', 'all requested sizes, for histories of up to four requests with returns in between, with and without a failing allocation', 'tests request a few sizes in one order; failing allocations and destruction are never exercised',
  S+'MemoryPool.h '+S+'MemoryPool.cpp', [('Pool::get, Pool::put, Pool::active, Pool::total, Pool::~Pool', S+'MemoryPool.cpp')])
t('L01', 'Lagrange interpolation and differentiation use the right points and weights',
  '''For an order n of at least one, smaller than the number of mesh points, the interpolant and the derivative at x use n+1 consecutive points of the mesh that lie on both sides of x where the mesh reaches that far (the nearer choice when n is even), and the first or last n+1 points beyond its ends.
  Their weights are those of the one polynomial of degree n through these points, or of its slope at x.
  The value is the weighted sum of the ordinates at these points, and the order given at construction is the default.''',
  'inputs', 'all strictly increasing meshes of four points, all ordinates, all x inside and outside the mesh, orders one to three', 'tests look at equally spaced meshes and one function; boundary shifts and uneven spacing are not covered',
  N+'structured/onedim/LagrangePoly.cpp '+N+'structured/onedim/LagrangePoly.h', [('LagrangeCoefficients::get_bounds, get_interp_coefs_indices, get_derivative_coefs_indices', N+'structured/onedim/LagrangePoly.cpp'), ('LagrangeInterpolant::value, LagrangeDerivative::value', N+'structured/onedim/LagrangePoly.cpp')])
