WT = ('The tests run a fixed set of about 170 footprints and look at the resulting faces; ')

prop('C01', 'The vertex list is only ever appended to',
     'A call that builds a roof changes the given list of vertices only by appending new vertices at its end. Every vertex that was in the list '
     'keeps its position in the list and its coordinates, also when the call fails.',
     ['inputs'], 'all footprints, holes, unit vectors, heights and face lists, on every path (also the failing ones)',
     WT + 'they never compare the vertices that were there before, and they pass only their own footprints.',
     'PEG', [('vertex list extended', PKG + ' polygonize'), ('edges built from copies', EUC + ' Edge2')],
     AI + ', effects on objects of the caller',
     'Every in-place change on every analysed path is resolved to the objects it may touch; one that can only be an object of the caller is a violation.')

prop('C02', 'One roof vertex per skeleton node, and arcs are numbered to match',
     'The vertices a roof call appends are exactly the nodes of the straight skeleton, one vertex per node and in node order, with x and y '
     'taken from the same node as the height. Every sink of every node gives one arc of the roof graph: it starts at the vertex appended for its node and ends either at the footprint vertex that '
     'has the position of its sink or at the vertex appended for the node at that position.',
     ['inputs'], 'all skeletons (any number of nodes and sinks), footprints with and without holes, any position of the footprint in the vertex list',
     WT + 'an index that is off only for some block layout (a footprint not at the start of the list, several holes) is not sampled.',
     'P', [('node loop and arc numbering', PKG + ' polygonize')],
     AI + ', index provenance of what is appended and of what enters the graph',
     'Index terms (element k of which collection, at which offset) are compared exactly as polynomials over symbolic lengths; the part of the roof call up to the face graph is followed with every path kept apart, so that a node without vertex or a sink without arc shows on its path.')

prop('C03', 'Faces: a given list is extended, without one a fresh list is returned',
     'If the caller passes a list of faces (empty or not), a roof call returns that very list, extended at its end by the new faces, and leaves '
     'the faces already in it as they were. Without a list it returns a new list that no other call shares. New faces are lists of integer indices.',
     ['inputs'], 'all calls with and without a face list, an empty one included, on every returning path',
     WT + 'they never pass an existing list of faces.',
     'P', [('return of the faces', PKG + ' polygonize')],
     AI + ', identity and effects of the returned list',
     'Decided for the identity, origin and growth of the returned list and for the type of what is added to it.')

prop('C04', 'Hole table, unit vectors, contours and skeletons are read only',
     'Building a roof or a skeleton does not change its other arguments: the hole table, the unit vectors, the contours, their edges and the end '
     'points and directions of the edges are as before, also when the call fails. Counting the crossings of a skeleton does not change the skeleton.',
     ['inputs'], 'all arguments, on every path',
     WT + 'they never look at their arguments afterwards.',
     'PEG', [('copies taken of points and contours', PKG + ' polygonize, skeletonize'), ('Edge2 copies its points', EUC + ' Edge2')],
     AI + ', effects on objects of the caller',
     'Every in-place change on every analysed path is resolved to the objects it may touch.')

prop('C05', 'Calls do not influence each other',
     'What a call does or returns does not depend on earlier calls: nothing a call stores survives it in a module, class, function or default '
     'argument (a debug output the user asked for excepted), and no result is shared between calls or cached.',
     ['histories'], 'all sequences of calls in one process',
     WT + 'each in a fresh list, and none compares a second call with a first one.',
     'PEG', [('module variables are constants', PKG + ' top level'), ('default arguments', EUC + ' Edge2.__init__')],
     AI + ', effects on static objects',
     'Stores to module variables, class and function attributes, default arguments, import-time objects, and caches (decorators) reachable from the entry points.')

prop('C06', 'Calls are deterministic and silent',
     'The result of a roof or skeleton call depends only on its arguments: not on time, randomness, the environment, files, object addresses or '
     'the per-process seed of string hashing. A call prints nothing and writes no files.',
     ['inputs', 'configurations'], 'all arguments, processes and environments',
     WT + 'once, in one process, with one hash seed.',
     'PEG', [('face tracing starts from a set of integer pairs', GRA + ' faces')],
     AI + ', external-effect and hash-order analysis',
     'Every external call and every iteration over a set reachable from the entry points is classified.')

prop('C07', 'No half-done result when the skeleton fails',
     'If the computation of the straight skeleton fails, a roof call has changed neither the vertex list nor the face list. The face list is '
     'changed only after all computations that may raise an error of the library are done.',
     ['inputs', 'fault_sequences'], 'every failure inside the skeletonization, every explicit error of the library',
     WT + 'none of them provokes a failure and then looks at the lists.',
     'P', [('lists extended after the skeletonization', PKG + ' polygonize')],
     AI + ', order of effects and raising calls',
     'Order of the modification events relative to the skeletonization call and to raise statements on every path.')

prop('C08', 'Roof vertices lie on one pitch: height over tangent over flat',
     'Every vertex a roof call appends has z = z of the footprint + (height of its skeleton node) * slope. The slope is height / (largest node '
     'height) when the height is non-zero, else the given tangent, so the highest vertex is at the requested height, and with height and tangent zero the roof is flat.',
     ['inputs'], 'all footprints at any z, all heights and tangents (positive, negative, zero), all skeletons',
     WT + 'at z = 0 and without comparing the z of the result with the requested height or slope.',
     'P', [('slope and node heights', PKG + ' polygonize')],
     AI + ', symbolic value of the z coordinate',
     'The z term is compared as an exact polynomial (real arithmetic, rounding ignored).')

prop('C09', 'A roof does not depend on where the footprint lies',
     'Moving the whole footprint by a vector moves every appended vertex by that vector and changes nothing else: what the skeleton is computed '
     'from are only differences of coordinates, all contours (outer and holes) are moved by the same displacement, and the new vertices are moved back by it. (Exact up to rounding.)',
     ['inputs'], 'all footprints and all displacements in x and y (and z for the heights)',
     WT + 'each at one place.',
     'PEG', [('centering and moving back', PKG + ' polygonize'), ('Edge2 subtracts the centre', EUC + ' Edge2')],
     AI + ', translation-weight (affine) type of every coordinate',
     'Each coordinate value carries the weight with which it follows a displacement; mixed weights are violations. Rounding is ignored.')

prop('C10', 'Contours are closed and use the unit vector of their own edge',
     'From the outer block and from every hole block of the vertex list the edges are built between cyclic neighbours of that block, every vertex '
     'starting exactly one edge, in order. With given unit vectors the edge that starts at the j-th contour vertex (outer contour, then the holes in their order) '
     'gets the j-th unit vector; without, it gets its own normalised direction.',
     ['inputs'], 'all block positions and lengths, any number of holes, with and without unit vectors',
     WT + 'few of them have holes with unit vectors, and none has the blocks in another order.',
     'PE', [('edges from index blocks', PKG + ' polygonize'), ('edge direction', EUC + ' Edge2'), ('graph edges', PKG + ' polygonize')],
     AI + ', index arithmetic of every edge built',
     'Start, end and unit-vector indices are compared as exact polynomials over symbolic block positions and lengths, case by case of the cyclic wrap.')

prop('C11', 'A missing value is never used as if it were there',
     'Intersections, events, circles and searches that find nothing are reported as a missing value inside the library, and no path uses such a '
     'value as if it were a point, an event or a list: a call does not fail with an attribute or type error because of one. The same holds for omitted optional arguments.',
     ['inputs'], 'all footprints (parallel, degenerate, repeated edges included), all combinations of omitted arguments',
     WT + 'the missing value arises only for special geometry.',
     'PEG', [('None tests before use', PKG + ' next_event, processDormers, findClusters'), ('intersection returns None', EUC + ' _intersect_line2_line2')],
     AI + ', nullness',
     'A value that may be None from a call, a search or an omitted argument must be tested on the path to its use. Links of the wavefront stored as None first are not decided.')

prop('C12', 'No division by a quantity that degenerate geometry makes zero',
     'No division in the library divides by a value computed from coordinates (a length, a cross product, a difference, a component) unless the '
     'value has been tested against zero on the way or cannot be zero by construction. So collinear, coincident or parallel input does not end in a ZeroDivisionError.',
     ['inputs'], 'all footprints, degenerate ones included',
     WT + 'the zero divisor needs exactly parallel, collinear or coincident points.',
     'PEG', [('zero tests before divisions', EUC + ' _intersect_line2_line2, fitCircle3Points; ' + GRA + ' pseudoangle; ' + PKG + ' checkEdgeCrossing, removeGhosts, polygonize')],
     AI + ', non-zero facts at every division',
     'Accepted without proof (listed as undecided): collection sizes, the largest node height, sums of lengths of footprint edges.')

prop('C13', 'Skeleton events: all queued, nearest first, each one handled',
     'Every event the wavefront produces (at the start and for every vertex that continues after an event) is put into the event queue unless it is missing; the queue '
     'hands events out in the order of their distance; every event taken out is handled or belongs to a vertex that is used up; and the propagation goes on until no event '
     'or no wavefront is left.',
     ['inputs', 'histories'], 'all sequences of events, batches of equal distance included',
     WT + 'an event lost or handled too early shows only for footprints where that event decides.',
     'P', [('event queue', PKG + ' _EventQueue'), ('main loop', PKG + ' skeletonize'), ('orders', PKG + ' _SplitEvent, _EdgeEvent, DormerEvent')],
     AI + ', obligations along the paths of the event loop',
     'Every event value created must flow to the queue; every element taken out or returned is followed over all paths of the loop; the order is decided from the comparison methods.')

prop('C14', 'A wavefront vertex is used by one event only',
     'An event (edge, split or dormer) changes the wavefront only after checking that none of the vertices it belongs to has been used up before, and an event that '
     'records a node marks the vertices it belongs to as used up, and all the vertices of a ring that ends with it.',
     ['inputs', 'histories'], 'all orders in which events reach the same vertex',
     WT + 'two events that compete for one vertex are rare in them.',
     'P', [('validity checks', PKG + ' skeletonize'), ('marking', PKG + ' _LAVertex.invalidate, _LAV.invalidate, event handlers')],
     AI + ', all paths through the event handlers kept apart',
     'On every path through a handler: the validity facts known at the first change, and the vertices marked until the end.')

prop('C15', 'Wavefront rings stay doubly linked and keep their footprint edges',
     'Whenever a wavefront vertex gets a successor, that one gets the vertex as its predecessor, and the other way round, when the rings are built as well as in every event. '
     'A vertex that continues after an event lies between the footprint edge on the side of its predecessor and the one on the side of its successor: on a side taken over from '
     'a used-up vertex it keeps the edge of that vertex, on the side of a split it has the opposite edge.',
     ['inputs', 'histories'], 'all events on all rings',
     WT + 'a wrong link or edge shows only if a later event passes there.',
     'P', [('merging two vertices', PKG + ' _LAV.unify'), ('splitting a ring', PKG + ' _SLAV.handle_split_event'), ('dormers', PKG + ' _SLAV.handle_dormer_event'), ('construction', PKG + ' _LAV.from_polygon')],
     AI + ', symbolic link structure at the end of every path',
     'Access paths (event.vertex_a.prev and so on) are compared after every path through a handler and after every step of a loop that builds a ring.')

prop('C16', 'A skeleton node has an arc to every wavefront vertex that ends in it',
     'The node an event records has an arc to the starting point of every vertex the event belongs to and uses up, to a vertex of every ring that ends with the event (to all of them if the '
     'ring shrinks to the node), and never to itself. The nodes one event records are connected with each other, and no node is recorded without arcs. '
     'Every node an event makes enters the skeleton. A ring is given up by an edge or split event exactly if fewer than three of its vertices are left.',
     ['inputs', 'histories'], 'all events on all rings',
     WT + 'a lost arc of a rare event does not change the number of faces they compare.',
     'P', [('arcs', PKG + ' handle_edge_event, handle_split_event, handle_dormer_event')],
     AI + ', all paths through the event handlers kept apart',
     'The end points of the recorded arcs are compared with the vertices marked as used up on the same path. Vertices of a dormer that are reached only through links are listed as undecided.')

prop('C17', 'Position and height of a skeleton node belong together',
     'The position and the height of a node come from the same event; a node that joins several events has their mean height. The vertices that continue after an event start at the '
     'position of its node. When nearby nodes are merged, each coordinate and the height of the new node are the mean over all the nodes it replaces.',
     ['inputs', 'histories'], 'all events and all clusters of nodes',
     WT + 'heights of nodes are hardly looked at.',
     'P', [('recording', PKG + ' event handlers'), ('merging', PKG + ' mergeCluster')],
     AI + ', symbolic position and height of every node created',
     'Terms of position and height are compared; sums over a loop are compared as closed forms.')

prop('C18', 'Geometry primitives return the point, distance, circle and side they name',
     'The point returned as the intersection of two lines or rays lies on both of them, and not behind the start of a ray; no point is returned only if they are '
     'parallel or it would lie behind the start of a ray. The distance from a line is the perpendicular distance. The circle through three points is equidistant '
     'from them at the returned radius. An edge runs from its first to its second point, with the given or its own unit direction and its true length. The '
     'left-turn and the segment crossing test are right for points in general position.',
     ['inputs'], 'all coordinates (real arithmetic, rounding ignored)',
     WT + 'the primitives themselves are not tested, and an error in one orientation or quadrant may leave the number of faces as it is.',
     'E', [('line and ray intersection', EUC + ' _intersect_line2_line2, Ray2, Line2'), ('circle fit', EUC + ' fitCircle3Points'), ('edge', EUC + ' Edge2')],
     AI + ', exact identities of rational functions over the symbolic result',
     'The symbolic result of every path is substituted into the defining equation and normalised exactly; the sign facts of the path decide when nothing may be returned.')

prop('C19', 'Every name, attribute and parameter the code refers to exists',
     'No path of the library can end in a NameError, or in an AttributeError or TypeError caused by the code itself: every name read is defined, every attribute '
     'read from an object of the library exists on it, and every call fits the parameters of the function it reaches. This includes error messages, printing of objects and rare branches.',
     ['inputs'], 'all functions and branches of the package, rarely taken ones included',
     WT + 'rare branches (error messages, debug output, dormers, apses) are not executed by most of them.',
     'PEG', [('definitions', PKG), ('classes', EUC + ', ' + GRA)],
     'scope and member resolution over the syntax tree, plus ' + AI,
     'Names and self-attributes are resolved for every function of the package; attributes of other objects and parameters on every analysed path. A name bound on some paths only is listed as undecided.')

prop('C20', 'No loop changes the collection it is running over',
     'No loop of the library adds to or removes from the collection it is iterating over (directly, through another name, or through a generator of pairs made from it) '
     'and then goes on with the iteration, so no element is skipped or visited twice and no outdated pair is used.',
     ['inputs'], 'all loops on all paths',
     WT + 'skipping an element shows only if the next one also needed treatment.',
     'PG', [('removal lists and restarts', PKG + ' removeGhosts, mergeCluster, polygonize'), ('edge set', GRA + ' faces')],
     AI + ', iterator invalidation',
     'For every loop the collections its iterator depends on are tracked through aliases; a size change followed by a path back to the loop head is a violation.')

prop('C21', 'A wavefront vertex proposes the nearest event of its own bisector',
     'The event found for a wavefront vertex lies on the vertex\'s bisector. An edge event joins it with the previous or next vertex of its ring, the two given in the same order of the ring each time, at the point where the two '
     'bisectors meet, and one is considered with each of the two neighbours whenever their bisectors meet. A split event is considered for reflex vertices only, never '
     'for the two footprint edges the vertex lies between, and only where its place was tested to lie inside of the edge it hits and between the bisectors of both ends of that edge. The distance '
     'of an event is measured from its place to one of its footprint edges. Of all events considered the one whose place is nearest to the vertex is proposed.',
     ['inputs'], 'all wavefront vertices on all paths through the search for events (geometry primitives taken as exact, see C18)',
     WT + 'a wrong distance, a missing test or a candidate that is left out matters only where two events compete.',
     'P', [('event search', PKG + ' _LAVertex.next_event'), ('events', PKG + ' _EdgeEvent, _SplitEvent')],
     AI + ', intersections and distances as uninterpreted functions of the lines they are asked for',
     'Every path of the search is kept apart; place and distance of every event created are compared with the lines of its own vertices and edges, and the facts of the path with the region tests.')

prop('C22', 'The wavefront starts as the footprint, with the right bisectors',
     'The wavefront starts with one vertex for every edge of every contour, at the first point of the edge, between that edge and the one before it in its contour. A vertex of the '
     'footprint is reflex exactly if the contour turns right there. The bisector of every wavefront vertex, also of those made later, starts at the vertex and halves the angle between '
     'the two edges of the vertex; it points the other way for reflex vertices. The edge table used for split events lists the edges of all contours, each with the bisectors '
     'of its own two ends, and every vertex is asked for its first event.',
     ['inputs'], 'all footprints with any number of holes, all places that create wavefront vertices',
     WT + 'a vertex that is left out or a wrong bisector in the edge table matters only for certain shapes and holes.',
     'P', [('initial rings', PKG + ' _LAV.from_polygon, _SLAV'), ('bisectors', PKG + ' _LAVertex')],
     AI + ', symbolic edge indices and bisector directions',
     'Edge indices are compared as exact terms modulo the contour length; the direction of the bisector and the reflex decision are compared with the edge directions for every path through the constructor.')

prop('C23', 'The roof graph orders neighbours by angle and walks its faces one way',
     'An edge entered into the face graph makes each of its two ends a neighbour of the other, exactly once; an edge from a vertex to itself adds nothing, and neighbours entered before are kept. '
     'The circular embedding orders the neighbours of every vertex by the angle of their horizontal direction as seen from that vertex, whatever their distance and height. '
     'A face is continued at the end of its last edge with the direct neighbour of that edge in the ring of the vertex there. The order of the rings, the direction polygonize asks for '
     'and the step of the walk together trace inner faces counter-clockwise.',
     ['inputs'], 'all graphs, all positions of the neighbours around a vertex, both directions of the embedding',
     WT + 'an order wrong in one quadrant or for one distance shows only where two ridges leave a node in such directions.',
     'G', [('face graph', GRA + ' poly2FacesGraph, pseudoangle, compare_angles'), ('use', PKG + ' polygonize')],
     AI + ', exact derivative of the comparator along a rotation of the direction, in every pair of quadrants',
     'The comparator is taken path by path as an exact function of the two directions: its difference must have one sign of the derivative under rotation in all sixteen pairs of quadrants, must not change with the distance, and must break once around the circle.')

prop('C24', 'The Blender add-on builds a closed box, scaled by axis, and cleans up',
     'For every scale of the dialog the operator calls polygonize with a block [firstVertIndex, firstVertIndex + numVerts) that lies in its vertex list, is flat, simple and (for positive scales) counter-clockwise. '
     'Every coordinate is a constant times the scale of its own axis; the base lies on the ground, vertex i straight below roof vertex firstVertIndex + i, and there are no other vertices. '
     'There is exactly one wall quad for every footprint edge, joining base and roof edge, counter-clockwise seen from outside. polygonize gets no holes, a positive height or pitch, and these walls; '
     'the mesh is made of the vertices it extended, no loose edges, and the faces it returned, and is put in the scene with the settings of the operator, which then reports FINISHED. '
     'unregister takes back everything register has registered, with the same objects; the menu button and the manual entry name the identifier of the operator.',
     ['inputs', 'histories'], 'all scales of the dialog, all sequences of enabling and disabling the add-on',
     WT + 'no test imports the add-on: it needs Blender.', 'A', [('demo object', ADD + ' add_object'), ('registration', ADD + ' register, unregister, add_object_button, add_object_manual_map'), ('operator', ADD + ' OBJECT_OT_add_object')],
     AI + ', calls into Blender taken as effects; exact polynomial forms of the coordinates in the scale',
     'The vertex list is followed item by item with the scale as a symbol; the wall quads are folded from their index terms for every edge. Blender itself is not analysed: register and unregister are compared as effects.')

prop('C25', 'A dormer is judged at its own place and made of its own events',
     'Whether four successive vertices of the outer contour (turns right, left, left, right) become a dormer depends on the lengths of their own three edges and of the two edges next to them, and on the turns at '
     'the vertices just before and after them: not on other candidates, nor on which vertex the contour starts with. The conditions for a candidate and for its mirror image are the same. '
     'The width of a dormer is the length of its own front edge. A dormer event is made only if the first events of its four vertices exist and are, in contour order, a split event, an edge event, any, and a split event; '
     'it consists of these two split events and the edge event, is placed where the bisectors of its two outer vertices meet, and comes at half the width. '
     'The first events of all vertices that are in no dormer event stay in the queue; the list of first events has one place for every vertex, also for those without an event.',
     ['inputs'], 'all contours, all candidates and their order along the contour',
     WT + 'a value left over from another candidate, or a contour that starts inside a dormer, changes the roof only then.', 'P',
     [('detection', PKG + ' detectDormers'), ('events', PKG + ' processDormers'), ('first events', PKG + ' skeletonize')],
     AI + ', conditions as exact terms over positions relative to the candidate',
     'The acceptance conditions are collected as terms whose edge and turn positions are taken relative to the first vertex of the candidate modulo the contour length; they are compared with their own mirror image.')

prop('C26', 'Merging nodes loses no arc and doubles none',
     'When a cluster of skeleton nodes is merged, the new node has as sinks exactly the sinks of the cluster nodes that lie outside the cluster, each position once. '
     'Of every other node, arcs that led into the cluster lead to the new node afterwards, at most one from each node, and its other arcs stay. '
     'Exactly the nodes of the cluster are removed, and exactly one node is added; its position and height are the means over all merged nodes. '
     'Of several nodes at exactly one place the first stays and takes over the arcs of the others, each once; the others leave the skeleton. '
     'Two nodes are at one place only if both coordinates agree.',
     ['inputs', 'histories'], 'all clusters, all numbers of sinks and of arcs between members and outside nodes, all orders of the skeleton',
     WT + 'an arc is lost or doubled only for clusters with arcs in particular places.', 'P',
     [('cluster merging', PKG + ' mergeCluster'), ('same place', PKG + ' mergeNodeClusters'), ('removal and addition', PKG + ' skeletonize')],
     AI + ', path conditions under which each arc is kept, redirected or dropped',
     'Every append and removal on sink lists and on the skeleton is taken with the condition on its path and the range of its loop; what it keeps and drops is compared with the statement.')

prop('C27', 'The crossing test counts exactly the pairs of arcs that cross',
     '`checkEdgeCrossing` looks at every pair of arcs of the skeleton once (an arc runs from the position of a node to one of its sinks) and counts the pair, by one, exactly '
     'if the arcs are not parallel and the point common to the two lines through them lies inside both arcs, apart from the ends (up to a tolerance relative to the length). It returns the number of pairs counted.',
     ['inputs'], 'all skeletons, all positions, lengths and directions of two arcs',
     WT + 'the tests only ask that good skeletons have no crossing.', 'P',
     [('crossing test', PKG + ' checkEdgeCrossing')],
     AI + ', path conditions compared exactly (rational functions) with the parameters of the common point',
     'Every comparison on a path that counts or passes over a pair is matched with one of the two parameters of the common point plus a constant, as an identity of rational functions of the eight coordinates.')

prop('C28', 'Cleaning ghost arcs loses no connection',
     'When `removeGhosts` resolves two arcs of a node that run in the same direction, the longer one is handed over: its end goes to the list of the node at the end of the shorter one '
     '(unless that node leads there already), and it leaves the list of the node it came from; the shorter arc stays. Otherwise an arc is removed only if it leads from a node to the node itself. '
     'Arcs whose directions differ (cosine more than 0.01 away from 1) are left alone.',
     ['inputs'], 'all skeletons, all directions and lengths of two arcs of a node',
     WT + 'a lost arc merges two roof faces only for footprints whose arcs overlap.', 'P',
     [('ghost clean-up', PKG + ' removeGhosts'), ('called from', PKG + ' skeletonize')],
     AI + ', path conditions compared exactly with lengths and cosine of the two arcs',
     'Every removal from and addition to the list of a node is taken with the conditions on its path; a removed end must be taken over on the same path by the node found at the end of the other, shorter, parallel arc.')

prop('C29', 'Faces start with a footprint edge and lose only straight roof vertices',
     'The face graph hands over every traced face that has a roof vertex, and only these, as the list of the start vertices of its edges; a face that has an edge between two footprint vertices is turned '
     'so that such an edge comes first. Afterwards `polygonize` removes a vertex from a face with more than three corners because it is straight exactly if it is a roof vertex '
     '(footprint and hole vertices stay), is in at most two faces, and its two edges in this face run on in the same direction in plan (cosine within 0.01 of 1), or one of them has no length; of equal neighbours one '
     'is removed. As a spike is taken exactly a vertex of a face with more than three corners where the edges, both longer than zero, turn back (cosine within 0.01 of -1) and not to the right. '
     'All faces are looked at, and a vertex is removed from the face it was judged in.',
     ['inputs'], 'all vertex lists, all traced faces, all positions of three consecutive vertices',
     WT + 'only few footprints produce straight vertices, spikes or vertices shared by three faces.', 'PG',
     [('faces handed over', GRA + ' faces'), ('clean-up of faces', PKG + ' polygonize')],
     AI + ', conditions of every path compared with the required decision',
     'Every round of the loops over the vertices of a face is taken with the conditions on its path; they must imply the decision taken on that path, and every vertex that has to go must be judged by some path.')

prop('C30', 'Only clusters of near nodes that are no architectural detail are merged',
     'When skeleton nodes are merged, the first node not looked at yet and every other such node whose distance from it (sum of the distances in x and in y) is less than the threshold form a cluster, and no other node '
     'does; the members leave the nodes to be looked at. A cluster is offered for merging exactly if it has two or more nodes, none of them nearer than 3 (same distance) to the centre of an apse, and either fewer than '
     'two of the sinks of its nodes are contour vertices or no two of these are within twice the threshold of each other. The threshold is 0.1, all nodes and the vertices of all contours take part. '
     'In each round the largest cluster is merged, and only this one; it goes on until none is offered.',
     ['inputs', 'histories'], 'all skeletons, all positions of nodes, apses and contour vertices, all rounds of merging',
     WT + 'clusters between near contour vertices or at apses, and footprints with several clusters, are rare.', 'P',
     [('finding clusters', PKG + ' findClusters'), ('choosing a cluster', PKG + ' mergeNodeClusters')],
     AI + ', conditions of every path compared with the required decision',
     'Every round of the loops over candidates, members, centres and clusters is taken with the conditions on its path; they must imply the decision taken on that path.')

prop('C31', 'An apse is a whole run of gentle angles and keeps its own centre',
     'An angle of the outer contour is gentle exactly if the cross product of the unit vectors of the two edges that meet there is less than 0.5 in size. An apse is a run of six or more gentle angles in a row, as long '
     'as it goes, also across the start of the contour. Every run that starts in the contour is fitted with a circle through the vertices at its angles, from the first to the last, and the centre of every circle '
     'found is returned. A contour that has only gentle angles has no apse. Apses are looked for in the outer contour, not in holes.',
     ['inputs'], 'all outer contours, wherever their list of edges starts',
     WT + 'apses across the start of the contour or with vertices off the circle are rare, and a missed centre shows only where nodes are merged near it.', 'P',
     [('runs of gentle angles', PKG + ' detectApses'), ('contour searched', PKG + ' findClusters')],
     AI + ', conditions of every path compared with the required decision; parse tree of the pattern',
     'The conditions under which each letter is chosen are evaluated as functions of the cross product; the pattern is parsed, not run; every round of the loop over the runs that fits no circle must imply that the run '
     'starts in the second round; positions of the vertices are compared with those of the run. The circle itself is C18, what the centres are used for is C30.')

na('N01', 'The skeleton is the straight skeleton of the footprint',
   'Every node of the skeleton is at its recorded height from all footprint edges that sweep it, for every simple footprint with holes.',
   ['inputs'], 'all simple polygons with holes', WT + 'a global geometric fact.', 'PE', [('wavefront propagation', PKG + ' skeletonize')],
   'A geometric invariant over runtime coordinates and floating-point thresholds; the documentation itself says that merging and cleaning leave the mathematical skeleton. No static argument in reach bounds it.')
na('N02', 'Skeleton edges do not cross',
   'No two arcs of a returned skeleton intersect except at common end points.', ['inputs'], 'all simple polygons with holes',
   WT + 'the tests count crossings only for their own footprints.', 'P', [('ghost and spike removal', PKG + ' removeGhosts')],
   'Quantifies over runtime coordinates; depends on the wavefront propagation being geometrically exact.')
na('N03', 'The faces partition the footprint',
   'The roof faces cover the footprint without gaps or overlaps, counter-clockwise, one face for every contour edge, starting with that edge.',
   ['inputs'], 'all simple polygons with holes', WT + 'face counts are compared only for their footprints.', 'PG', [('face tracing', GRA + ' faces'), ('spike removal', PKG + ' polygonize')],
   'Follows only from planarity of the skeleton graph at run time (and spikes merge faces by angle thresholds); no static argument bounds it.')
na('N04', 'Every face has at least three different vertices',
   'No returned face has fewer than three different vertices.', ['inputs'], 'all simple polygons with holes',
   WT + 'only their faces are checked.', 'P', [('spike and parallel-edge removal', PKG + ' polygonize')],
   'The clean-up removes vertices by angle thresholds; how many remain depends on coordinates at run time.')
na('N05', 'Rotating or scaling the footprint rotates or scales the roof',
   'A rotated or uniformly scaled footprint gives the rotated or scaled roof.', ['inputs'], 'all rotations and scales', WT + 'each in one orientation.',
   'PEG', [('thresholds in metres', PKG + ' mergeNodeClusters, findClusters')],
   'Not true by design: cluster, dormer and event thresholds are absolute lengths, and the cluster test uses the Manhattan distance.')
na('N06', 'Every call terminates',
   'Every roof or skeleton call returns or raises after finitely many steps.', ['inputs'], 'all inputs', WT + 'each ends on their inputs.',
   'PG', [('event loop', PKG + ' skeletonize'), ('clean-up loops', PKG + ' removeGhosts, polygonize')],
   'The measure that decreases (events, clusters, spikes) depends on geometric predicates at run time; a sound termination argument is out of reach for these loops.')
na('N07', 'Apses and dormers get the roof a builder would give them',
   'A polygonal apse gets all its ridges from one centre and a dormer its own small roof.', ['inputs'], 'all footprints with apses or dormers', WT + 'looked at by eye.',
   'P', [('pattern matching', PKG + ' detectApses, detectDormers')],
   'A quality judgement with tuned thresholds; there is no specification to decide against.')
