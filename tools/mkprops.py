#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
B = 'src/node/behaviors/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Location coherence of adopted children',
 "After every successful write that puts a node into a tree - item assignment, setdefault, update with a mapping, with pairs or with keywords, insertion before/after/first/last, assignment into a nodespace or an attributes container, attribute-style access, creation by a child factory - the node's name is the key it is stored under and its parent is the container holding it. This stays true for every node that remains contained, whatever happens to other nodes. A rejected write leaves the name and the parent of every node, the offered one included, as they were.",
 ['inputs', 'histories', 'configurations'],
 'all operation sequences over all node classes composed from adopting behaviors (unordered, ordered, full, attribute containers), any string key, any tree shape',
 'The tests adopt one child through one path at a time; they never interleave write paths, move nodes between containers, or check untouched nodes afterwards.',
 [B+'common.py', B+'order.py', B+'attributes.py', B+'nodespace.py', B+'mapping.py'],
 [('Adopt.__setitem__ / setdefault', B+'common.py'), ('Order.insert*', B+'order.py'), ('Nodespaces.__setitem__', B+'nodespace.py')],
 [('__name__, __parent__', 'location of a node', B+'nodify.py')],
 ['node.name', 'node.parent', 'container.items()'])

prop('C02', 'Tree traversal agrees with containment',
 "For every node of a tree whose nodes all got their position through the write API, the path is the list of names from the root down to the node, the root is the unique ancestor without parent, and looking up the names below the root (as a list, or for non-empty names without slash as a slash-joined string with or without surrounding slashes) from the root returns the very same node. Acquiring an interface or class returns the nearest strict ancestor providing it, or nothing when there is none, and filtering by interface returns exactly the providing children, in child order. The textual tree representation has one line for every node and value of the subtree, indented by depth, ordered nodes in child order and unordered ones by key.",
 ['inputs', 'histories', 'configurations'],
 'all trees reachable by write operations, all nodes of them, all interfaces/classes, with and without falsy names and values',
 'The tests use a handful of fixed trees, mostly two levels deep, and never query after moves.',
 [B+'nodify.py', 'src/node/utils.py'],
 [('Nodify.path/root/acquire/filtereditervalues/treerepr', B+'nodify.py'), ('LocationIterator, node_by_path', 'src/node/utils.py')],
 [], ['node.path', 'node.root', 'node_by_path()', 'node.acquire()', 'node.filteredvalues()', 'node.treerepr()'])

prop('C03', 'All mapping views and mutators agree with one mapping',
 "A node behaves as one finite mapping that is private to the instance: a read returns the object last stored under the key, and keys, values, items, their iterating forms, iteration, length, containment, has_key, get and attribute-style access all describe this same content at any moment. Deletion, pop, popitem, clear, setdefault and update change it exactly like the same calls on an insertion ordered dictionary (overwriting keeps the position, popitem of an ordered node takes the last item), for any stored value including false ones and any default. Nodes backed by an unordered storage guarantee the content, but no order.",
 ['inputs', 'histories', 'configurations'],
 'all sequences of mapping operations on all mapping-providing compositions, all keys and values (also None, 0, empty and UNSET)',
 'The generic mapping test runs one fixed script per method on a two item mapping.',
 [B+'mapping.py', B+'storage.py', B+'nodify.py', 'src/node/utils.py'],
 [('FullMapping and its parts', B+'mapping.py'), ('Storage, DictStorage, OdictStorage', B+'storage.py'), ('instance_property, AttributeAccess', 'src/node/utils.py')],
 [('storage', 'backing dict/odict', B+'storage.py')],
 ['every IFullMapping method', 'as_attribute_access()'])

prop('C04', 'A rejected single-item write has no effect',
 "A single-item write that raises - a value that is no node or is a class where only nodes are allowed, a missing key, a duplicate uuid, an unnamed or already contained node or a foreign reference node at insertion, or any exception coming out of the storage backend - leaves the content and order of every node, the names and parents of all nodes, the uuid lookup, the attributes and nodespaces as they were, and sends no lifecycle notification. A multi-item write (update, clear) that fails keeps exactly the effects of the items processed before the failing one. After a rejected operation every later operation and its notifications behave as if the rejected one had never been tried.",
 ['inputs', 'histories', 'fault_sequences', 'configurations'],
 'all failing operations at any point of any history, with the failure in any layer (validation, uniqueness, order, backend fault of any exception type)',
 'Tests assert that an exception is raised; they hardly ever look at the state afterwards and never inject backend faults.',
 [B+'common.py', B+'order.py', B+'reference.py', B+'lifecycle.py', B+'alias.py', B+'mapping.py'],
 [('Adopt revert', B+'common.py'), ('NodeChildValidate', B+'common.py'), ('Reference duplicate check', B+'reference.py'), ('Order insertion', B+'order.py'), ('Lifecycle.detach suppression', B+'lifecycle.py')],
 [], ['state projection before/after', 'notifications', 'later operations'])

prop('C05', 'Ordered children keep exactly the order asked for',
 "On an ordered node that supports insertion, inserting a named node before or after a child, first or last puts it at exactly that position; swapping two children exchanges exactly those two; assignment to a new key appends and to an existing key keeps the position; and all other children keep their relative order in both directions of traversal. Insertion of a node without name, of a name already taken, or relative to a node that is no child is rejected. Every enumeration of the node shows this one order.",
 ['inputs', 'histories'],
 'all sequences of insert/swap/set/delete/detach/pop on ordered nodes of any size, including empty and one-element ones, first and last positions, re-insertion of detached nodes',
 'Order tests use one tree of a few children and check one insertion each; odd positions combined with deletion and re-insertion are not covered.',
 [B+'order.py', B+'storage.py'],
 [('Order.insertbefore/insertafter/insertfirst/insertlast/swap', B+'order.py')],
 [('storage', 'ordered dictionary', B+'storage.py')],
 ['keys()', 'values()', 'popitem()'])

prop('C06', 'UUID lookup covers exactly the tree',
 "In a tree of referencable nodes, asking any node of the tree for a uuid (by node lookup or through the index, by UUID object or integer) returns exactly the node of this tree carrying this uuid, and nothing for uuids of nodes that are not, or no longer, in the tree - deleted, popped, detached, overwritten or cleared subtrees included. No two nodes of a tree ever share a uuid: adding a node or subtree carrying a uuid present in the tree, or assigning such a uuid, is rejected. A removed subtree is itself a tree with a complete lookup of its own and can be added again.",
 ['inputs', 'histories', 'configurations'],
 'all histories of set/delete/pop/detach/overwrite/insert/uuid assignment over subtrees of any depth, also subtrees built before they are added',
 'The reference tests build one small tree and detach one subtree.',
 [B+'reference.py', B+'order.py'],
 [('Reference.__setitem__/__delitem__/detach/uuid setter', B+'reference.py'), ('Order._validateinsertion', B+'order.py')],
 [('index', 'uuid to node mapping shared by all nodes of a tree', B+'reference.py')],
 ['node.node(uuid)', 'node.index'])

prop('C07', 'Lifecycle notifications exactly once and truthful',
 "On nodes with lifecycle notification every creation sends one created notification, every successful assignment or insertion one added notification naming the stored object, the container and the key after the object can be read back, every deletion in whatever form (del, pop, popitem, clear) one removed notification after the object is gone, every detach one detached and no removed notification, and every change of a notifying attributes container one modified notification for the owning node. Reads, failed operations and changes of other nodes send nothing. This holds for all histories, in particular also after failed operations.",
 ['inputs', 'histories', 'configurations', 'fault_sequences'],
 'all operation sequences on compositions with lifecycle behavior, with ordering, references, attributes and validation mixed in',
 'One test script per notification type on a fresh node; combinations with failures and other behaviors are untested.',
 [B+'lifecycle.py', 'src/node/events.py'],
 [('Lifecycle plumbing', B+'lifecycle.py'), ('AttributesLifecycle', B+'lifecycle.py')],
 [('suppression flag', 'detach suppresses the removed notification', B+'lifecycle.py')],
 ['zope.component subscribers for (INode, I*Event)'])

prop('C08', 'Nodespaces and attributes are isolated from children',
 "Keys with leading and trailing double underscore address the nodespaces of a node and nothing else: they never show up among the children, never touch a child with a similar name, and a nodespace stored under such a key is returned by item access and by the nodespaces mapping, with the key as name and the node as parent, until it is deleted. The attributes container of a node is created once, is found under its reserved key, belongs to that node alone and is located at it; changes to attributes never change children, other nodespaces or other nodes and vice versa. A node's own children appear as the children nodespace, which is the node itself.",
 ['inputs', 'histories', 'configurations'],
 'all interleavings of writes to children, nodespaces and attributes over all nodes of a tree, keys with any number of underscores on either side',
 'Tests touch one nodespace on one node.',
 [B+'nodespace.py', B+'attributes.py', 'src/node/base.py'],
 [('Nodespaces.__getitem__/__setitem__/__delitem__', B+'nodespace.py'), ('Attributes.attrs', B+'attributes.py')],
 [('nodespaces', 'reserved containers per node', B+'nodespace.py')],
 ['node.attrs', 'node["__x__"]', 'node.nodespaces', 'keys()'])

prop('C09', 'Child caching is transparent and loads at most once',
 "With caching mixed in, reading a key twice without a write or an invalidation in between returns the identical object and asks the backend at most once; writing or deleting a key, or invalidating it or the whole node, makes the next read show the backend's state, never an object that was overwritten, deleted or invalidated. Absent keys are not cached: a key the backend gains later is found. Invalidation of one key leaves the other keys cached, and works according to its kind: the plain kind deletes the children and raises for a missing key, the volatile-storage kind drops stored children, which factories recreate, and raises KeyError only for keys unknown to the node.",
 ['inputs', 'histories', 'configurations'],
 'all sequences of read, write, delete, pop, detach, invalidate, backend change over several keys, caching combined with factories, lifecycle, references and both kinds of invalidation',
 'Tests check single-step invalidation on two keys; combination with behaviors that read while deleting is never exercised.',
 [B+'cache.py'],
 [('Cache plumbing', B+'cache.py'), ('Invalidate, VolatileStorageInvalidate', B+'cache.py')],
 [('cache', 'key to object', B+'cache.py')],
 ['node[key] identity', 'backend read count'])

prop('C10', 'Factory children appear exactly as declared',
 "A node with child factories enumerates exactly the declared keys in declared order, creates a child only when it is first read, only through the factory declared for that key, at most once until it is removed or invalidated, and returns this same adopted child afterwards; a key without factory that is not stored raises KeyError. A node with fixed children has exactly the declared children from construction on, in declared order, each an own instance named by its key with the node as parent, and rejects every write and deletion without effect. Instances never share children.",
 ['inputs', 'histories', 'configurations'],
 'all read/write/delete/invalidate sequences on several instances of several declarations, subclasses included',
 'Tests read each declared key once on one instance.',
 [B+'common.py', B+'cache.py'],
 [('ChildFactory', B+'common.py'), ('FixedChildren', B+'common.py')],
 [('factories', 'key to factory', B+'common.py')],
 ['iteration', 'item access', 'factory call count'])

prop('C11', 'Aliasing is a bijective view of the keys',
 "For every aliaser - dictionary, prefix, suffix, both, chain, with empty or missing prefix and suffix - translating a real key to its alias and back yields the same key, and translating a key that is no alias is rejected with KeyError (a non-strict dictionary aliaser passes unknown keys unchanged instead). A node with an aliaser reads, writes, deletes and contains under the alias exactly what the unaliased node holds under the real key, and enumerates the aliases of exactly the real keys, in order, leaving out keys a whitelisting aliaser does not list. Failures name the key as the caller gave it, and a reversed mapping enumerates exactly the swapped pairs.",
 ['inputs', 'histories', 'configurations'],
 'all string keys, prefixes and suffixes including empty, overlapping and repeated ones, chains of any length, injective dictionary aliasers',
 'Tests use one prefix, one suffix and a two key dictionary.',
 [B+'alias.py', 'src/node/utils.py'],
 [('PrefixAliaser, SuffixAliaser, DictAliaser, AliaserChain, PrefixSuffixAliaser', B+'alias.py'), ('Alias plumbing', B+'alias.py'), ('ReverseMapping', 'src/node/utils.py')],
 [], ['aliaser.alias/unalias', 'node mapping API', 'storage of the node'])

prop('C12', 'Event subscribers are called exactly as bound',
 "Dispatching an event on a dispatcher calls exactly the subscribers bound to this event on this instance at the time of the dispatch, in binding order, each once, with exactly the given arguments; binding twice is the same as once, and unbinding removes exactly what its arguments name (one subscriber of one event, all of one event, one subscriber everywhere, everything). Binding to an event neither registered on the instance nor declared by its class or a base class is rejected; registering an event or declaring it on one class never affects other instances or unrelated or base classes. Subscribers that bind or unbind during a dispatch change later dispatches only.",
 ['inputs', 'histories', 'programs'],
 'all sequences of register/bind/unbind/dispatch over several instances and a class hierarchy, reentrant subscribers included, dispatcher classes with any constructor arguments',
 'Tests bind one or two subscribers on one instance and never modify bindings while dispatching.',
 [B+'events.py', 'src/node/events.py'],
 [('Events.bind/unbind/dispatch/register_event', B+'events.py'), ('class declaration hook', B+'events.py')],
 [('subscribers', 'per instance, per event', B+'events.py'), ('events', 'declared/registered names', B+'events.py')],
 ['subscriber calls'])

prop('C13', 'Event attributes notify on change, suppression is scoped',
 "Assigning an event attribute stores the value for this instance only (in the configured storage) and notifies exactly when the new value differs from the current one, or always if so configured, first the attribute's own subscribers with the instance and the value, then the bound ones with the value; deleting it returns the attribute to its default and notifies the bound ones with UNSET. While a suppression scope is open in a thread the suppressed events (all, one or several) are not delivered in that thread, values are stored nevertheless, and after the outermost scope naming an event is left - normally or by exception, in any nesting - delivery works exactly as before. A suppression scope that was only created, or is open in another thread, suppresses nothing, and all this works in every thread.",
 ['inputs', 'histories', 'schedules'],
 'all sequences of assignments, deletions and nested suppression scopes on several attributes, instances and threads',
 'Tests use one level of nesting in the main thread only.',
 [B+'events.py'],
 [('EventAttribute', B+'events.py'), ('suppress_events', B+'events.py')],
 [('thread-local suppression state', 'depth and names', B+'events.py')],
 ['subscriber calls', 'attribute values'])

prop('C14', 'Fallback lookups resolve to the right subtree',
 "Reading a key that exists returns the node's own child; reading a missing key on a node with fallback looks for the same remaining path below the fallback child of the nearest ancestor declaring one, then of the next ones up to the root, and returns the first hit, or raises KeyError for the key asked for if there is none. An ancestor whose fallback child is missing is skipped. Lookups always terminate, change nothing in the tree, and behave the same from every thread and after failed lookups.",
 ['inputs', 'histories', 'configurations', 'schedules'],
 'all trees of bounded size with fallback keys at any set of nodes (nested fallbacks, missing fallback children, shadowing), all paths',
 'The tests use one three level tree with two fallback keys.',
 [B+'fallback.py'],
 [('Fallback.__getitem__, upward and downward search', B+'fallback.py')],
 [('thread-local recursion counter', 'fallback only at the outermost lookup', B+'fallback.py')],
 ['node[key]', 'node.get', 'key in node'])

prop('C15', 'Serialization round trip',
 "Deserializing the serialized form of a tree (nodes whose children are nodes, with attribute containers holding strings, numbers, booleans, None, UNSET, UUIDs, lists, dictionaries, classes and functions) yields a tree of the same classes with the same names, the same children in the same order and equal attributes at every node, with coherent locations; lists of such trees round trip as well. With a root given, the new tree is added under its name to that root and nothing else of the root changes. Serializing never changes the source, and the simple mode yields the same structure without type information.",
 ['inputs', 'configurations'],
 'all finite trees over the supported values, with and without attributes, any names and any nesting (strings that look like UNSET or UUID markers, dictionaries with other than text keys and the reserved keys __node__ and __ob__ excluded)',
 'Tests serialize a few two level trees.',
 ['src/node/serializer.py'],
 [('NodeEncoder, NodeDecoder, node and attributes serializers', 'src/node/serializer.py')],
 [('serializer registry', 'type to callback', 'src/node/serializer.py')],
 ['serialize()', 'deserialize()'])

prop('C16', 'Copies are independent and faithful',
 "A deep copy or a pickle round trip of a tree yields a tree with the same classes, names, order, values and attributes at every node, coherent locations inside the copy, no node in common with the original, and a consistent uuid lookup of its own; later changes of the copy never show in the original and vice versa. A deep copy of a uuid-aware tree gives fresh, pairwise different uuids to the copied root and, by default, to all its descendants (only to the root if so configured), while the original keeps its own; a shallow copy of a uuid-aware node is refused. A shallow copy of any other node is a new node of the same class with same name, parent and items.",
 ['inputs', 'histories', 'configurations'],
 'all trees over the node classes, copies of roots, copies of copies, followed by any changes',
 'Tests copy one small tree and check a few fields.',
 [B+'mapping.py', B+'nodify.py', B+'common.py', B+'reference.py'],
 [('ClonableMapping.copy/deepcopy', B+'mapping.py'), ('Nodify.copy', B+'nodify.py'), ('UUIDAware.deepcopy/set_uuid_for', B+'common.py')],
 [], ['copy()', 'deepcopy()', 'pickle', 'node.uuid'])

prop('C17', 'Tree lock: mutual exclusion, reentrancy, release',
 "At any moment at most one thread is inside a section protected by the tree lock of one tree, whichever nodes of the tree are used to take it and also when several threads take it for the first time at once; different trees do not block each other. The holding thread may enter again through any node of the tree, and the lock is free only after as many exits. A protected method releases the lock on return and on any exception, passes arguments, result and exception through, and no acquisition is lost: once released, a waiting thread can proceed.",
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of threads acquiring through any nodes, including first acquisition, nesting and exceptions',
 'The test runs two threads once, without control of the schedule.',
 ['src/node/locking.py'],
 [('TreeLock, locktree', 'src/node/locking.py')],
 [('lock on the root node', 'one reentrant lock per tree', 'src/node/locking.py')],
 ['TreeLock', 'locktree'])

prop('C18', 'String codec converts the whole structure and nothing else',
 "Encoding or decoding a value of arbitrarily nested lists, tuples, dictionaries and nodes converts every text (respectively byte) string in it, keys included, leaves all other values untouched, keeps the shape (nodes become dictionaries of their children), never changes its argument and shares no list, dictionary or node with it, so that later changes of one never show in the other. Decoding an encoded text structure yields an equal structure. Bytes that are not valid in the encoding stay unchanged in soft mode and raise UnicodeDecodeError in strict mode when decoded.",
 ['inputs', 'configurations'],
 'all nested values of bounded depth, several encodings, soft and strict mode',
 'Tests convert a handful of literals.',
 ['src/node/utils.py'],
 [('StrCodec.encode/decode', 'src/node/utils.py')],
 [], ['encode()', 'decode()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
