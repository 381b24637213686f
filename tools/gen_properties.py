#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to rewrite that file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
I = "include/edyn/"; S = "src/edyn/"

# ---------------------------------------------------------------- concurrency
p("C01", "Every job given to the worker pool runs exactly once, payload intact",
  "Each job handed to a running worker pool, or pushed into a job queue, is executed or handed out exactly once, with the payload it was submitted with, however the submitting threads and the workers interleave. A queue hands jobs out in first-in first-out order, so that with a single worker the jobs of one submitter run in the order they were submitted. Submitting never crashes or blocks forever. (Jobs still waiting when the pool is stopped may be discarded.)",
  ["schedules"], "every interleaving of any number of submitting threads and worker threads",
  "No test exercises the pool at all, and a test would sample one schedule of the operating system.",
  [S+"parallel/job_dispatcher.cpp", S+"parallel/job_queue.cpp", I+"parallel/worker.hpp", I+"parallel/job.hpp"],
  [("mutex-protected queue with condition variable", S+"parallel/job_queue.cpp"), ("least busy worker selection", "job_dispatcher::async")],
  ["the job functions that run", "job_queue::pop/try_pop results"])
p("C02", "Starting and stopping the worker pool always terminates and is repeatable",
  "Stopping a worker pool always returns, at whatever moment it is called after start, and when it has returned no job is running and no job will run any more. A stopped pool reports that it is not running and has no workers, and can be started again with any positive number of workers and then works as a new one.",
  ["schedules", "histories"], "every interleaving of the stopping thread with the worker threads, including workers that have not begun to run yet; every start/submit/stop history",
  "Needs a particular interleaving (stop before a worker thread first runs); no test starts or stops the pool.",
  [S+"parallel/job_dispatcher.cpp", I+"parallel/worker.hpp"],
  [("running flag plus no-op job that unblocks the queue", "worker::stop/run")],
  ["job_dispatcher::stop returning", "running()", "num_workers()"])
p("C03", "Waiting on a countdown returns exactly when every part has been counted",
  "A thread that waits on a countdown of N returns if and only if N decrements have happened, whether it begins to wait before, between or after them, and the countdown may be destroyed as soon as the wait has returned.",
  ["schedules"], "every interleaving of one waiter and N decrementing threads",
  "A lost wake-up or premature return needs a precise interleaving; no test covers it.",
  [I+"parallel/atomic_counter_sync.hpp"],
  [("count and flag under a mutex, notified under the lock", "atomic_counter_sync")], ["wait() returning"])
p("C04", "A parallel task covers its index range exactly once before completing",
  "A task run over a range of N indices in the worker threads is invoked on sub-ranges that together cover every index from 0 to N-1 exactly once. The waiting variant returns only after all of them have finished; the non-waiting variant calls its completion exactly once, after all of them.",
  ["schedules", "inputs"], "every N, every number of workers, every interleaving",
  "Range splitting and completion counting race between workers; tests run sequentially.",
  [S+"context/task.cpp"], [("atomic chunk counter, completion counter", "enqueue_task_default / enqueue_task_wait_default")],
  ["the (start, end) ranges passed to the task", "the completion call"])
p("C05", "Messages reach their destination queue once and in the order they were sent",
  "Messages sent to a named queue are delivered to that queue's handlers, and to no other, exactly once, with their content and sender, in the order in which they were sent, when its owner updates it. Messages sent while the owner is handling messages are delivered by a later update (or the same one) and are never lost. The owner is notified once for every message pushed.",
  ["schedules", "histories"], "every interleaving of senders and of the receiving thread",
  "Delivery order and loss depend on interleavings between the main thread and the simulation worker; no test targets the queues.",
  [I+"parallel/message_queue.hpp", I+"parallel/message_dispatcher.hpp"],
  [("double-buffered vector under a mutex", "message_queue::consume")], ["handlers invoked by message_queue_handle::update"])

# ---------------------------------------------------------------- containers
p("C06", "Index-stable storage never confuses live, freed and cleared slots",
  "Inserting returns an index that no live element uses; an element is read back unchanged at its index until it is removed, whatever else is inserted or removed, the element count equals insertions minus removals, and freed slots are used again before the storage grows. After removal or clearing a slot reads as default (no stale content), and cleared storage behaves as new storage.",
  ["histories"], "every sequence of insert, remove, modify and clear",
  "Slot recycling bugs need particular insert/remove/clear histories; tests never touch the container directly.",
  [I+"core/free_list.hpp"], [("intrusive list of free slots", "free_list")], ["indices returned, element contents, count()"])
p("C07", "Nested arrays return exactly the values appended to each of them",
  "An array of arrays stored flat returns, for each nested array, exactly the values appended while it was the last one, in order, including empty nested arrays first, last and in the middle.",
  ["histories"], "every sequence of opening a nested array and appending values",
  "Only used indirectly by mesh code with non-empty rows.",
  [I+"core/flat_nested_array.hpp"], [("list of start offsets", "flat_nested_array")])
p("C08", "The entity graph mirrors its edit history and reports exact connectivity",
  "After any sequence of node and edge insertions and removals, neighbour and edge visits report exactly the present edges, each once, and edge endpoints are those given at insertion. Traversal reaches exactly the nodes connected to the start without passing through non-connecting nodes, and the connected-component queries partition the present nodes accordingly.",
  ["histories"], "every edit history, including parallel edges, re-inserted edges, removal of all edges of a node and clear",
  "Adjacency lists with recycled slots: wrong links appear only after particular histories; four fixed graphs are tested.",
  [S+"core/entity_graph.cpp", I+"core/entity_graph.hpp"], [("adjacency lists in free lists", "entity_graph")])
p("C09", "Entity mappings between two registries stay one-to-one",
  "A map between remote and local entities returns for every inserted pair the partner in both directions until either side is erased or exchanged, and never maps two entities of one side to the same entity of the other.",
  ["histories"], "every sequence of insertions, erasures by either side and exchanges",
  "Not tested; mistakes appear only after particular histories.",
  [I+"replication/entity_map.hpp"], [("two maps kept in step", "entity_map")])
p("C10", "Material mixing does not depend on the order of the two materials",
  "A material combination stored for a pair of material ids is found, read, replaced and removed under either order of the two ids, whatever other pairs the table holds, and pairs that were not stored are not found. Default mixing of two materials gives the same value in both orders.",
  ["histories", "inputs"], "every set of stored pairs and every query order",
  "The ordering of pairs inside the table matters only for particular sets of three or more pairs; no test stores more than one.",
  [I+"dynamics/material_mixing.hpp", I+"core/unordered_pair.hpp"], [("order-independent pair comparison", "unordered_pair")])

# ---------------------------------------------------------------- spatial
p("C11", "Static bounding-volume tree queries report every overlapping leaf, only once",
  "A tree built from any non-empty set of boxes places each box's index in exactly one leaf, and a box query or a ray query visits every leaf whose contents overlap the query, at most once, and no leaf whose bounds do not. Every node's bounds enclose everything below it.",
  ["inputs"], "every set of boxes (coincident, nested, flat, many per leaf) and every query",
  "Partitioning has degenerate cases (equal centres) no test builds.",
  [I+"collision/static_tree.hpp", I+"collision/query_tree.hpp"], [("median/centre split", "aabb_set_partition")])
p("C12", "Dynamic bounding-volume tree answers stay complete under any update history",
  "After any sequence of insertions, moves and removals a box query or ray query visits every live leaf whose box overlaps the query, at most once, and never a removed leaf; a moved leaf's stored box always contains the box it was given, and the root's bounds enclose all leaves.",
  ["histories"], "every history of create, move, destroy and clear followed by every query",
  "Tree rotations and refitting go wrong only for particular histories; one scripted test exists, and it cannot be built here.",
  [S+"collision/dynamic_tree.cpp", I+"collision/dynamic_tree.hpp"], [("AVL-style balancing with refit", "dynamic_tree")])
p("C13", "Triangle mesh adjacency is exactly what its triangles imply",
  "For a mesh built from any list of vertices and triangles, every triangle's three edges, every edge's two vertices and its one or two faces, the boundary edges, and the convexity of each edge are those implied by the triangles, and each undirected edge exists once. Properties given per vertex are interpolated linearly over edges and faces, and the adjacent normals and the projection of a separating axis into the region of a vertex, edge or face agree with the geometry of the neighbouring triangles.",
  ["inputs"], "every triangle soup with consistent winding, with boundaries, isolated faces and flat, convex and concave edges",
  "One small mesh is tested.",
  [S+"shapes/triangle_mesh.cpp", I+"shapes/triangle_mesh.hpp"], [("edge map and face/edge index tables", "triangle_mesh::initialize")])
p("C14", "Mesh region and ray queries visit every triangle they touch",
  "Visiting the triangles of a mesh within a box or along a segment visits every triangle whose bounding box overlaps the box or segment, and never a triangle twice; visiting all triangles visits each exactly once, with its own vertices.",
  ["inputs"], "every mesh and query box or segment",
  "Completeness over all query boxes cannot be sampled by the single mesh test.",
  [S+"shapes/triangle_mesh.cpp", I+"shapes/triangle_mesh.hpp"], [("static tree over triangle boxes", "triangle_mesh::visit_*")])
p("C15", "Paged meshes load pages on demand within their cache limit",
  "Visiting an area of a paged mesh requests each absent page that intersects it exactly once until it is loaded, visits exactly the loaded triangles overlapping it, and makes room for a requested page within the configured limit by discarding the least recently visited pages, and only when needed. The pages hold every triangle of the mesh exactly once with its normals, adjacency and per-vertex values, also after saving and loading, embedded or in separate files. Settings such as thickness apply to pages whenever they are loaded. Visits and loads may happen concurrently.",
  ["histories", "schedules"], "every order of visits, page arrivals and cache limits",
  "Eviction order and duplicate requests depend on the interleaving of visits and completed loads.",
  [S+"shapes/paged_triangle_mesh.cpp", I+"shapes/paged_triangle_mesh.hpp"], [("LRU queue, per-page loading flag", "paged_triangle_mesh")])

# ---------------------------------------------------------------- geometry
p("C16", "Closest-point queries return the true closest points and their distance",
  "For points, lines, segments, discs, boxes and convex polygons, the reported closest points lie on the respective objects, are given by the reported parameters, and no other pair of points is closer; the returned distance is the one between them. (For circles in general position the points lie on the circles and their distance is the one returned; for coaxial and coplanar circles it is the minimum.) This includes parallel and anti-parallel segments, degenerate segments and points inside, on and outside the object.",
  ["inputs"], "every configuration",
  "Three circle cases and no segment, disc, line or box case are tested.",
  [S+"math/geom.cpp", S+"util/shape_util.cpp"], [("Voronoi regions and clamped projections", S+"math/geom.cpp")])
p("C17", "Intersection tests agree with exact geometry",
  "Segment/box, line/box, segment/segment, line/circle, circle/circle, ray/sphere, ray/cylinder, segment/triangle and point-containment tests report an intersection exactly when one exists, and the reported parameters locate it: all intersection points when there are two (in order for circles, spheres and cylinders), and tangency reported at the touching point.",
  ["inputs"], "every configuration, including parallel, tangent, touching and contained ones",
  "A handful of fixed cases is tested per function, none for most.",
  [S+"math/geom.cpp", S+"math/triangle.cpp", S+"util/shape_util.cpp"], [("closed-form solutions", S+"math/geom.cpp")])
p("C18", "Support points and features are the furthest in the given direction",
  "For every shape and direction the support point lies on the shape and no point of the shape is further along the direction, the support projection is its distance, and the support feature (vertex, edge or face) consists of the vertices furthest in the direction, within the given tolerance: when only some corners of a box face are within it the feature is the edge of the furthest two, and a triangle's feature has all vertices within the tolerance and none beyond twice the tolerance. This holds for boxes, cylinders, capsules, triangles, point clouds and convex polyhedra in every position and orientation.",
  ["inputs"], "every shape, position, orientation and direction, including directions aligned with faces and edges",
  "Not tested at all in the part that builds.",
  [S+"shapes/box_shape.cpp", S+"shapes/cylinder_shape.cpp", S+"util/shape_util.cpp", S+"math/triangle.cpp", I+"util/shape_util.hpp"],
  [("sign selection, hill climbing over neighbours", S+"util/shape_util.cpp")])
p("C19", "Planar convex hulls contain every point and wind counter-clockwise",
  "The hull of a set of points in the plane is a convex counter-clockwise polygon made of points of the set that contains all of them within the tolerance, without repeated points; collinear sets give a segment (or the three points of a flat triangle). The tolerance is relative to sides of about unit length, and the points are not all coincident. Triangle winding tests, point-in-polygon and closest-point-on-polygon queries agree with it.",
  ["inputs"], "every finite point set, including collinear and coincident points",
  "Not tested.",
  [S+"util/shape_util.cpp"], [("quickhull", "calculate_convex_hull")])
p("C20", "Contact point reduction keeps at most four points and never loses spread",
  "Adding a point to a contact set of at most four either appends it, replaces a point, or ignores it: the count grows exactly when it is appended, which happens only below capacity, and the reported slot is always within the set. A replaced point closer than the merging threshold is reported as similar, a set of one point merges a second one within the threshold, a point on the segment of two or inside the triangle of three points is ignored, of three collinear points the one not needed to span them is replaced, and in a full set the new point takes the place that spans the largest area, or none if no exchange spans more.",
  ["inputs", "histories"], "every sequence of candidate points",
  "Not tested.",
  [S+"math/geom.cpp", I+"math/geom.hpp"], [("insertion_point_index", S+"math/geom.cpp")])
p("C21", "Box vertex, edge and face indexing is mutually consistent",
  "For every box, edge and face index the reported vertices, edges, normals, centres, bases, extents and adjacent faces describe the same box: each edge joins two vertices of both of its faces, normals point outward, face vertices are coplanar and ordered counter-clockwise, and the closest feature of a point on a face is the one whose region contains the point. Meshes made for boxes and planes describe the same box and plane.",
  ["inputs"], "every index, half extent, position and orientation",
  "Not tested.",
  [S+"shapes/box_shape.cpp", I+"shapes/box_shape.hpp"], [("static index tables", S+"shapes/box_shape.cpp")])
p("C22", "Volumes and centroids of shapes are exact and independent of face order",
  "The volume and centroid computed for a closed mesh equal the exact ones, whatever the order of its faces, the starting vertex of each face and its position, and the volumes of boxes, spheres, cylinders, capsules and compounds are those of the solids.",
  ["inputs"], "every closed polyhedron",
  "Not tested.",
  [S+"math/shape_volume.cpp", S+"util/shape_util.cpp"], [("signed tetrahedra sums", "mesh_volume / mesh_centroid")])
p("C23", "Solver impulses stay within limits and are applied symmetrically to both bodies",
  "Whatever rows, velocities and iterations are solved, the accumulated impulse of a row stays within its limits, the velocity changes of both bodies equal the accumulated impulse applied through the row, an unclamped row ends with its target velocity satisfied, and friction impulses never exceed the friction coefficient times the normal impulse.",
  ["inputs", "histories"], "every sequence of solver iterations over every row",
  "Not tested directly.",
  [S+"constraints/constraint_row.cpp", S+"constraints/constraint_row_friction.cpp", S+"constraints/constraint_row_spin_friction.cpp"],
  [("clamping of the accumulated impulse", "solve / solve_friction / solve_spin_friction")])
p("C24", "Prepared constraint rows come back grouped by constraint, in order",
  "Rows prepared for the constraints of one entity are handed back constraint by constraint in the order they were added, each with its own options and friction rows, and none is lost, duplicated or attributed to another constraint, for every preparation history and after reuse; clearing a cache of rows leaves nothing of them behind.",
  ["histories"], "every sequence of constraints, rows and friction rows added, consumed and cleared",
  "Not tested.",
  [I+"dynamics/row_cache.hpp"], [("per-constraint row counts", "constraint_row_prep_cache")])

# ---------------------------------------------------------------- networking data
p("C25", "Merging action histories keeps every action once and in order",
  "When overlapping batches of timestamped actions from one sender are merged in the order they were sent, every action ends up in the history exactly once and in timestamp order, even if earlier entries have been erased meanwhile; erasing until a time removes exactly the older entries.",
  ["histories", "fault_sequences"], "every batching, repetition, loss and erasure sequence",
  "Not tested.",
  [I+"networking/comp/action_history.hpp"], [("last merged timestamp", "action_history::merge")])
p("C26", "Modified components are exported for a fixed time after their last change",
  "A component counts as modified from its last change until the configured duration has elapsed, independently of the other components of the entity, for every interleaving of changes and elapsed time, including when all components are modified.",
  ["histories"], "every sequence of changes and elapsed times",
  "Not tested.",
  [I+"networking/comp/exporter_modified_components.hpp"], [("remaining time per component", "exporter_modified_components")])
p("C27", "Clock synchronisation converges and ignores stale responses",
  "A request is sent when synchronisation is due (at first, and again after the period) and again when its response is overdue; only a response to the pending request is accepted, and only once. A sample is taken from two consecutive exchanges whose round trips and remote times agree within a tenth; the reported offset is the mean of the samples of the last finished round (of those taken so far in the first round), so its error never exceeds half of the longest accepted round trip, and on a steady network synchronisation finishes.",
  ["histories", "fault_sequences"], "every order, loss and duplication of responses and every timing",
  "Needs adverse network orders.",
  [S+"networking/util/clock_sync.cpp"], [("request ids and counters", "clock_sync")])
p("C28", "Input history replays each input in its time window exactly once",
  "Importing a time window assigns, for every entity that exists in the importing registry, every input recorded in the window (ends included) in order and no other, and adds every one-shot action of the window (end excluded) exactly once and in order; importing the latest state assigns the last input at or before the time. Actions received repeatedly are recorded once. Erasing removes what is older than the given time and nothing else, and a removed entity leaves nothing behind.",
  ["histories"], "every record, merge, query and erase sequence",
  "Partly tested with one sequence.",
  [I+"networking/util/input_state_history.hpp"], [("timestamped pools", "input_state_history")])
p("C29", "Serialization round-trips every supported value",
  "Reading back what was written yields an equal value and consumes exactly the bytes written, for every supported type, value and nesting, in memory and in files, whatever the destination held before, and writing does not change the value written; the announced size of meshes and their parts is the number of bytes written; a fixed-size buffer that is too small is reported as failed and never written past its end.",
  ["inputs"], "every value of every serializable type, within the documented size of the length fields",
  "Not tested.",
  [I+"serialization/memory_archive.hpp", I+"serialization/file_archive.hpp", I+"serialization/std_s11n.hpp", I+"serialization/math_s11n.hpp", I+"serialization/s11n_util.hpp", I+"serialization/triangle_mesh_s11n.hpp"],
  [("symmetric archive functions", "serialize")])
p("C30", "Truncated input is reported as failed and never read past its end",
  "Reading from a buffer that is shorter than what is being read, at every truncation point, sets the failed state, keeps it set, never reads outside the buffer, never changes a primitive value after the failure and never makes up values from unrelated memory; a complete buffer never fails and is at its end exactly when everything was read.",
  ["inputs", "fault_sequences"], "every truncation point of every message",
  "Tests never truncate.",
  [I+"serialization/memory_archive.hpp"], [("bounds check before each read", "memory_input_archive::read_bytes")])
p("C31", "Mesh files load exactly the geometry they describe",
  "Loading a mesh file yields every vertex, colour and face of the file, with face indices referring to the vertices of their own object, polygons triangulated as fans that cover them, and the given scale, rotation and translation applied in that order; unknown lines are ignored.",
  ["inputs"], "every well-formed file: several objects, polygons, slashes, colours, comments, missing trailing newline",
  "Not tested.",
  [S+"util/shape_io.cpp"], [("line parser", "load_meshes_from_obj_stream / load_tri_mesh_from_obj_stream")])

# ---------------------------------------------------------------- simulation
p("C32", "Islands are exactly the connected components of the simulated bodies",
  "After every island update each procedural body is in exactly one island, two procedural bodies share an island exactly if they are connected through constraints or contacts without passing through non-procedural bodies, every constraint or contact is in the island of its bodies, a non-procedural body is in exactly the islands of the bodies it is connected to, and no island is empty.",
  ["histories"], "every history of creating, destroying, connecting and disconnecting bodies, and of changes of their kind, between updates",
  "A few scripted histories exist and cannot be built here.",
  [S+"simulation/island_manager.cpp"], [("merge and split of islands over the entity graph", "island_manager")])
p("C33", "Islands fall asleep as a whole, only when at rest, and wake when touched",
  "An island falls asleep by itself only after all its bodies stayed below the sleep thresholds for the required time since it last changed, with none of them having sleeping disabled, and then it does; it also sleeps when told to. A sleeping island sleeps as a whole: all its bodies and edges are asleep, and any change to it (a body or edge added or removed, a kind change, an explicit wake-up) wakes all of them.",
  ["histories"], "every history of velocities, times and island changes",
  "Timing and merge histories are not sampled.",
  [S+"simulation/island_manager.cpp", S+"util/island_util.cpp"], [("sleep timestamp per island", "island_manager::put_to_sleep")])
p("C34", "Replicated registries converge to the source under any edit history",
  "Executing, in any batches, the operations recorded from edits of observed entities of one registry against another one leaves the latter with exactly the entities observed at the source and the components they have, with the same values, except that entities held in components, directly or in lists, arrays, dictionaries and nested members, are those which stand for them at the destination, or null (dropped from lists and dictionaries) if there is none; changes made while recording is off are not sent, operations on entities the destination does not know or has lost have no effect, and a batch whose names are translated beforehand has the same effect.",
  ["histories"], "every sequence of entity and component creation, change and destruction, and every batching",
  "Two scripted exchanges are tested; orders of observation, loss and reuse are not, nor are containers.",
  ["include/edyn/replication/registry_operation.hpp", "include/edyn/replication/registry_operation_builder.hpp", "include/edyn/replication/registry_operation_observer.hpp", "include/edyn/replication/map_child_entity.hpp", "src/edyn/replication/map_child_entity.cpp", "include/edyn/replication/entity_map.hpp"], [("operations in registration order, references renamed through the entity map", "include/edyn/replication/registry_operation.hpp"), ("reference renaming by reflection", "src/edyn/replication/map_child_entity.cpp")])
p("C35", "Network snapshots transfer exactly the selected state to the mapped entities",
  "A snapshot holds exactly what it is asked for: all components of the given entities, chosen ones, or those changed within the configured time, and it reads the same after the wire. What a server sends a client leaves out the islands that the client alone owns things in, where the client is allowed to decide, and the client's own inputs and actions; what a client sends is the state of the islands it owns things in, except what others own, or only its inputs. Importing sets exactly the components in the snapshot, to their values with entities renamed, on the entities that stand for them, and nothing else: unknown and destroyed entities are skipped, and a server that checks ownership accepts inputs and actions of entities the client owns and other state of islands where it is the only client, so that a server never sends a client what it would let the client decide.",
  ["histories", "inputs"], "every selection of entities and components, every graph and ownership, and every mapping",
  "Not tested.",
  ["include/edyn/networking/util/pool_snapshot_data.hpp", "include/edyn/networking/util/pool_snapshot.hpp", "include/edyn/networking/packet/registry_snapshot.hpp", "include/edyn/networking/util/server_snapshot_importer.hpp", "include/edyn/networking/util/server_snapshot_exporter.hpp", "include/edyn/networking/util/client_snapshot_importer.hpp", "include/edyn/networking/util/client_snapshot_exporter.hpp"], [("pools of components with indices into the list of entities", "include/edyn/networking/packet/registry_snapshot.hpp"), ("island ownership through the entity graph", "include/edyn/networking/util/server_snapshot_importer.hpp")])
p("C36", "Collision filtering is symmetric and exclusions hold until removed",
  "Whether two bodies may collide depends only on the unordered pair: both filters must allow it and no exclusion may exist between them; an exclusion added for a pair holds until it is cleared, is independent of other exclusions, and disappears with either body.",
  ["histories", "inputs"], "every filter combination and every exclusion history",
  "Not tested.",
  [S+"collision/should_collide.cpp", S+"util/exclude_collision.cpp"], [("group/mask test and exclusion lists", "should_collide_default")])
p("C37", "There is one contact manifold per overlapping pair and it is found either way",
  "After a broad-phase update, sequential or parallel, each pair of bodies that may collide, one of them dynamic and awake, and whose boxes are within the contact breaking threshold has exactly one contact manifold, found under either order of the bodies. A manifold lasts until the boxes are more than 1.3 thresholds apart (or, between two bodies that are no longer dynamic, until that change), and goes, with all its contact points, when a body or its shape is removed. Box queries find every body whose box overlaps, once.",
  ["histories"], "every history of moves, creations and destructions",
  "Not tested.",
  [S+"collision/broadphase.cpp", S+"collision/contact_manifold_map.cpp"], [("offset boxes in two dynamic trees", "broadphase")])
p("C38", "Simulated time follows the given time: the right number of fixed steps",
  "In every execution mode and over any sequence of (non-decreasing) update times, the number of fixed steps run by an update equals the number of whole time steps elapsed, leftover time carried over so that none is lost or counted twice, and at most the configured maximum per update (time beyond that is skipped: every step still advances by the fixed time step). Nothing is simulated while paused, the duration of a pause is not simulated on resuming, and a manual step while paused runs exactly one. Presented transforms trail by one step (sequential modes), and equal the simulated ones while paused.",
  ["histories", "schedules"], "every sequence of update times, pauses, manual steps and changes of the time step and the limit",
  "Not tested.",
  ["src/edyn/simulation/stepper_sequential.cpp", "src/edyn/simulation/simulation_worker.cpp", "src/edyn/sys/update_presentation.cpp"], [("accumulated time", "stepper_sequential::update, simulation_worker::update")])
p("C39", "Raycasts report the nearest body the segment hits",
  "A ray cast from p0 to p1 reports exactly one answer: the body, not ignored, whose surface the segment from p0 to p1 enters first, with the fraction in [0, 1] where it does, the outward unit normal of the surface there and the face, feature, child or triangle that was hit; and no body if the segment enters none. Directly and through asynchronous requests (each answered exactly once), for every arrangement of bodies of every shape, also after bodies moved or were destroyed. If p0 is inside a body, nothing more than a fraction in [0, 1] is promised for that body.",
  ["inputs", "histories"], "every arrangement of bodies, history of moves and segment",
  "Only a few fixed rays are tested and those tests cannot be built here.",
  ["src/edyn/collision/raycast.cpp", "include/edyn/collision/raycast.hpp", "src/edyn/collision/raycast_service.cpp", "src/edyn/math/geom.cpp", "src/edyn/simulation/stepper_async.cpp"], [("tree traversal then shape tests, smallest fraction wins", "raycast, shape_raycast"), ("requests batched per simulation step, answered by message", "raycast_service, stepper_async::raycast")])
p("C40", "Bounding boxes enclose their shape in every pose",
  "The bounding box computed for a shape at a position and orientation contains every point of the shape, and touches it on all six sides for boxes, spheres, capsules, cylinders, polyhedra and compounds of them (triangle meshes ignore the orientation, by design); box algebra (enclosing, intersection, containment, area) agrees with sets of points.",
  ["inputs"], "every shape and pose",
  "Not tested in the part that builds.",
  [S+"util/aabb_util.cpp", I+"comp/aabb.hpp"], [("per-shape formulas", "shape_aabb")])
p("C41", "A rigid body's state follows from how it was made and what was done to it since",
  "After any history of making, clearing, changing kind, mass, inertia, centre of mass, origin or shape, impulses, kinematic moves and steps, a body has the components and graph role of its kind and nothing of another kind, static bodies have no velocity, the position, origin, velocities and bounding box are those the history implies (moving the centre of mass does not move the shape, a kinematic move yields the velocity of that move along the shortest way), and clearing leaves nothing behind so the entity can be made a body again.",
  ["histories"], "every history of body-changing calls and steps on bodies of all kinds, with and without shape and centre of mass",
  "A scripted test covers a few kind changes and cannot be built here.",
  ["src/edyn/util/rigidbody.cpp", "include/edyn/util/rigidbody.hpp"], [("make_rigidbody, clear_rigidbody, rigidbody_set_kind, rigidbody_set_shape, set_center_of_mass", "src/edyn/util/rigidbody.cpp")])
p("C42", "Convex mesh derived data is exactly what its faces imply",
  "The face normals, edges, incident faces of each edge, vertex neighbours and the distinct face normals and edge directions derived for a convex mesh are those implied by its faces, each once, and the rotated copy equals the mesh rotated.",
  ["inputs"], "every convex polyhedron and orientation",
  "Not tested.",
  [S+"shapes/convex_mesh.cpp"], [("incremental edge search", "convex_mesh::update_calculated_properties")])
p("C43", "Vector, matrix, quaternion and transform algebra is exact algebra",
  "Rotations by quaternions and by the matrices made from them agree, compose, invert and preserve lengths and handedness; transforming to object space and back is the identity; matrix product, inverse, transpose and determinant satisfy their defining equations, and element-wise operations act on every element.",
  ["inputs"], "every operand",
  "Single sample values are tested for a few operators.",
  [I+"math/vector3.hpp", I+"math/vector2.hpp", I+"math/matrix3x3.hpp", I+"math/quaternion.hpp", I+"math/transform.hpp", S+"math/quaternion.cpp", S+"math/geom.cpp"],
  [("component formulas", I+"math")])
p("C44", "Simulated motion is energetically stable and accurate",
  "Resting stacks stay at rest, energy does not grow and trajectories converge to the analytic motion as the step shrinks.",
  ["inputs", "histories"], "every scene",
  "Only sampled scenes.",
  [S+"dynamics/solver.cpp"], [("semi-implicit Euler with sequential impulses", S+"dynamics/solver.cpp")])
p("C45", "Moments of inertia are those of the solids",
  "The moments of inertia computed for boxes, spheres, cylinders and capsules on any axis, for polyhedra whatever their face order and triangulation, and for compounds with shifted and rotated parts equal the exact ones of the homogeneous solids; shifting the reference point follows the parallel axis theorem, and the world-space inverse inertia of a body is its inverse inertia rotated by its orientation.",
  ["inputs"], "every shape, dimension, mass and orientation",
  "Only a box and a polyhedral box are compared; symmetric cases hide wrong axes and signs.",
  [S+"dynamics/moment_of_inertia.cpp", I+"sys/update_inertias.hpp", S+"sys/update_inertias.cpp"],
  [("closed forms and signed tetrahedra sums", S+"dynamics/moment_of_inertia.cpp")])
p("C46", "Joints act and react, restrain exactly what they are meant to and nothing else",
  "For every joint type (point, distance, soft distance, gravity, cone, hinge, constant velocity, generic) and every pose, velocity and parameter set, the constraint rows it prepares are those of the joint: each pushes the two bodies equally and oppositely at the joint (no net force, and no net torque while the joint is satisfied); locked directions are unlimited both ways, limits push back only towards the allowed range and only from the closer side, springs and bump stops pull with stiffness times deflection towards rest and never past it, friction and damping are bounded by their strength times the time step; the angle of a hinge or constant velocity joint counts whole turns over any history of turning. Solved alone, a joint stops exactly the relative motion it forbids and conserves momentum. Applied impulses stored after a step come back, on the next preparation, to the rows that produced them, and storing them never reads past the impulses given. Position correction leaves a satisfied joint unmoved and reduces the error of a violated one.",
  ["inputs", "histories"], "Every pose, parameter set and history of turns",
  "A test samples a few poses; sign and lever-arm errors only show in particular combinations of pose, offset and enabled features, and turn counting only after passing a full turn.",
  ["src/edyn/constraints/point_constraint.cpp", "src/edyn/constraints/distance_constraint.cpp", "src/edyn/constraints/soft_distance_constraint.cpp", "src/edyn/constraints/gravity_constraint.cpp", "src/edyn/constraints/cone_constraint.cpp", "src/edyn/constraints/hinge_constraint.cpp", "src/edyn/constraints/cvjoint_constraint.cpp", "src/edyn/constraints/generic_constraint.cpp", "include/edyn/dynamics/position_solver.hpp"], [("prepare: rows from pose and parameters", "src/edyn/constraints/*_constraint.cpp"), ("store_applied_impulses: warm starting", "src/edyn/constraints/*_constraint.cpp"), ("solve_position", "include/edyn/dynamics/position_solver.hpp")])
p("C47", "A contact only pushes, rubs against motion and resumes where it left off",
  "The rows a contact point prepares are the mechanics of its contact: along the normal it only pushes the bodies apart, allowing an approach that stays short of touching within the step, bouncing by its restitution, and as a spring and damper shared among the points when it is soft; it rubs along two perpendicular tangents, about the axes a body can actually roll about (each body's roll direction turning with that body) and about the normal, each with its own coefficient and with the mass the bodies oppose. Solved alone, it leaves the bodies not approaching, exchanges momentum only between them, and its friction stays within the coefficient times the normal impulse, sticking or opposing the sliding. Position correction pushes a penetrating rigid contact out to touching along its normal (following the body it is attached to), and leaves separated and soft contacts alone. Impulses stored for a row are where that row starts the next time.",
  ["inputs", "histories"], "every pose, centre of mass, pivot, normal, velocity, mass and inertia (also immovable ones), distance and material of a contact, and every history of preparing and storing over changing materials",
  "The existing tests contain no contact constraint; rows depend on many continuous inputs and the wrong one only shows as subtly wrong motion.",
  ["src/edyn/constraints/contact_constraint.cpp", "src/edyn/constraints/contact_extras_constraint.cpp", "src/edyn/constraints/constraint_row_friction.cpp", "src/edyn/constraints/constraint_row_spin_friction.cpp", "include/edyn/dynamics/position_solver.hpp"], [("contact row preparation", "contact_constraint::prepare, contact_extras_constraint::prepare"), ("position correction", "contact_constraint::solve_position"), ("warm starting", "store_applied_impulses")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
