#!/usr/bin/env python3
"""Authoring source of properties.jsonl (run by hand; output is committed)."""
import json, os
U = ["8", "16", "32", "64"]
STR = ["strtree/strtree.go", "strtree/node.go"] + [f"uintX/strtree{b}/{f}" for b in U for f in ("strtree.go", "node.go")]
DL = ["dltree/dltree.go", "dltree/node.go"]
NUM = ["numtree/node32.go", "numtree/node64.go"]
IP = ["iptree/iptree.go"] + [f"uintX/iptree{b}/{f}" for b in U for f in ("iptree.go", "node32.go", "node64.go", "node64s.go")]
DOM = ["domaintree/domaintree.go"] + [f"uintX/domaintree{b}/{f}" for b in U for f in ("domaintree.go", "dltree.go", "node.go")]
NAME = ["domain/name.go", "domain/label.go"]
TPL = [f"uintX/strtree{{{{.bits}}}}/{f}.{{{{.ext}}}}" for f in ("strtree", "node")] + \
      [f"uintX/iptree{{{{.bits}}}}/{f}.{{{{.ext}}}}" for f in ("iptree", "node32", "node64", "node64s")] + \
      [f"uintX/domaintree{{{{.bits}}}}/{f}.{{{{.ext}}}}" for f in ("domaintree", "dltree", "node")] + ["uintX/uintX.yaml"]
ETC = [f"etc/{f}.go" for f in ("main", "config", "data", "file", "names", "template")]

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "String-keyed trees are exact ordered maps under any comparator",
 "After any sequence of inserts (copying or in-place) and deletes on a string-keyed tree - generic or fixed-width values, default order or any consistent caller-supplied ordering whatever the magnitude of its results - a lookup returns the value most recently stored under an equal key, at full width, and reports nothing (zero value, false) otherwise. Delete removes exactly the entry equal to its key and says truthfully whether there was one. Enumeration yields every stored entry exactly once in ascending comparator order, and the tree reports empty exactly when it stores nothing.",
 ["histories", "inputs"], "all operation histories, all key strings, all consistent comparators, all five string-tree packages",
 "Tests run a few fixed 16-key insertion orders and a handful of deletions; rebalancing has dozens of shape-dependent branches that only long mixed histories reach.",
 STR, [("top-down red-black insert", "strtree/node.go insert"), ("top-down in-place insert", "strtree/node.go inplaceInsert"), ("top-down delete with push-down recolouring", "strtree/node.go del"), ("search", "strtree/node.go get")],
 observe=["Tree.Get", "Tree.Enumerate", "Tree.Delete", "Tree.IsEmpty"])

prop("C02", "Label trees are exact maps keyed by label identity, not spelling",
 "A domain-label tree keeps one entry per label: spellings that differ in letter case, in character escapes or in a trailing dot address the same entry, and the human-readable and the binary-label operations read and write the same entries. After any history of inserts (copying or in-place) and deletes, lookups and delete flags agree with a map from labels to values. Both enumerations yield each entry once, shorter labels first and equal lengths bytewise, the human-readable one giving a spelling that addresses that very entry.",
 ["histories", "inputs"], "all operation histories mixing human-readable and binary-label calls, all labels of up to 63 arbitrary bytes (binary labels in upper case); for histories of binary-label calls alone, arbitrary byte strings of any length as keys",
 "Tests use single-character labels in a few fixed orders; length-first ordering, escapes and the mix of the two call families are barely touched.",
 DL + NAME, [("label normalisation", "domain/label.go getLabel"), ("length-then-bytes order", "dltree/node.go get/insert/del"), ("escaping", "domain/label.go MakeHumanReadableLabel")],
 observe=["dltree.Tree.Get/RawGet", "dltree.Tree.Enumerate/RawEnumerate", "dltree.Tree.Delete/RawDelete"])

prop("C03", "Red-black trees stay balanced after any history",
 "After any history of copying inserts, in-place inserts and deletes (including deletes that find nothing), the longest path of a string-keyed, label-keyed or per-level domain tree with n entries is at most 2*log2(n+1) nodes, so that a lookup makes at most that many key comparisons. In the dumped structure the root is black, no red node has a red child and every root-to-leaf path has the same number of black nodes.",
 ["histories"], "all operation histories on the string trees, the label tree and the label levels of the domain trees",
 "Balance is invisible to lookups; tests pin a few dumped shapes for 16-key trees and never check the invariant after deletions or unsuccessful deletes.",
 STR + DL + DOM, [("colour flips and rotations", "strtree/node.go insert/inplaceInsert/del"), ("same algorithm for labels", "dltree/node.go"), ("per-level label tree", "uintX/domaintree8/node.go")],
 state=[("red flag", "node colour", "node.red")], observe=["Tree.Dot", "number of comparator calls in Tree.Get", "pointer depth reachable from a domain tree"])

prop("C04", "Numeric radix match returns the longest stored prefix containing the key",
 "For any set of stored 32- or 64-bit prefixes, however they were inserted and deleted, matching a key of a given length returns the value of the longest stored prefix that is equal to it or contains it. If no stored prefix contains it, the match reports nothing (nil value, false); prefixes longer than the queried length, and branching points that were never stored, are never returned.",
 ["histories", "inputs"], "all histories of insert/in-place insert/delete and all queried keys and lengths 0..32 / 0..64",
 "Tests match a handful of keys against small trees; lengths at 0, 31/32, 63/64 and backtracking past non-data branches need systematic search.",
 NUM, [("match with backtracking", "numtree/node32.go match, numtree/node64.go match"), ("branching-node creation", "numtree/node32.go insert/inplaceInsert")],
 observe=["Node32.Match", "Node64.Match"])

prop("C05", "Numeric radix exact lookup finds stored prefixes and only those",
 "Exact lookup by key and length succeeds exactly when that very prefix is currently stored, returning the value stored last under it. The node finder returns for the same prefixes a node carrying that prefix, its length and that value, and nothing for prefixes that are only implied by the tree's structure.",
 ["histories", "inputs"], "all histories of insert/in-place insert/delete and all queried keys and lengths",
 "Tests probe a few fixed keys; distinguishing stored prefixes from structural branching points at every length needs generated neighbours.",
 NUM, [("exact match", "numtree/node32.go exactMatch/FindNode, numtree/node64.go exactMatch/FindNode"), ("leaf flag", "numtree Node32.Leaf/Node64.Leaf")],
 observe=["ExactMatch", "FindNode"])

prop("C06", "Numeric radix delete removes exactly the contained prefixes",
 "Deleting a key of a given length removes every stored prefix equal to or contained in it and nothing else, and reports true exactly when at least one prefix was removed. This holds whether or not the deleted prefix is itself stored; when nothing is contained the contents stay as they were.",
 ["histories", "inputs"], "all histories and all deleted prefixes, stored or not",
 "Tests delete a few prefixes from fixed trees; collapse of branching points after partial subtree removal depends on shape and depth.",
 NUM, [("subtree removal and branch collapse", "numtree/node32.go del, numtree/node64.go del")],
 observe=["Delete result and flag", "Enumerate after Delete"])

prop("C07", "Numeric radix enumeration is ordered, complete and history-independent",
 "Enumeration yields exactly the stored prefixes, each once, ordered by key with a containing prefix before the prefixes it contains, and then closes. The tree stays compact - every node's children lie strictly inside its prefix on their own side, and every node without data has two children - so two trees with the same contents have the same structure whatever histories built them.",
 ["histories"], "all pairs of histories leading to the same contents",
 "Tests enumerate a few fixed trees; independence from insertion order and from intermediate deletions quantifies over histories.",
 NUM, [("depth-first enumeration", "numtree/node32.go enumerate, numtree/node64.go enumerate"), ("path compression", "insert/inplaceInsert/del")],
 observe=["Enumerate", "Children", "Dot"])

prop("C08", "Numeric prefix keys are normalised: only the leading bits count",
 "In every numeric radix operation a length below 0 acts as 0 and a length above the key width acts as the key width, and key bits beyond the length are irrelevant. Replacing any argument by one differing only in those ways never changes contents, values, flags or which prefixes are found.",
 ["inputs", "histories"], "all keys with arbitrary trailing bits and all int lengths, in every operation of a history",
 "Tests pass canonical keys nearly everywhere; a mask slip at one length would go unseen.",
 NUM, [("length clamping", "numtree Insert/InplaceInsert/Match/FindNode/Delete"), ("mask tables", "numtree masks32/masks64")],
 observe=["metamorphic pair of histories"])

prop("C09", "IP lookups return the most specific stored network, per family",
 "For any set of stored IPv4 and IPv6 networks and addresses, however inserted and deleted, a lookup by network or address returns the value of the most specific stored network equal to or containing it, and (zero value, false) when there is none. IPv6 prefixes on either side of, and exactly at, 64 bits compete as one hierarchy, and the IPv4 and IPv6 families never answer for each other.",
 ["histories", "inputs"], "all histories over both families and all queries, in all five IP-tree packages",
 "Tests check a few networks; the two-stage IPv6 representation has a fallback path around 64 bits that needs nested prefixes on both sides to matter.",
 IP + NUM, [("lookup with 64-bit split and fallback", "iptree/iptree.go GetByNet"), ("address conversion", "iptree/iptree.go newIPNetFromIP"), ("uint variant two-level tree", "uintX/iptree8/iptree.go GetByNet")],
 observe=["GetByNet", "GetByIP"])

prop("C10", "Deleting a network removes exactly what it contains",
 "Deleting by network removes every stored network of that family equal to or contained in it and nothing else, and reports true exactly when something was removed; deleting by address removes exactly that address' entry. This holds whether or not the network itself is stored, for IPv6 on both sides of 64 bits, in the generic and the fixed-width trees.",
 ["histories", "inputs"], "all histories, all deleted networks, in all five IP-tree packages",
 "Tests delete only networks that were inserted themselves; deleting an absent covering network was never exercised.",
 IP + NUM, [("delete with 64-bit split", "iptree/iptree.go DeleteByNet, uintX/iptree8/iptree.go DeleteByNet")],
 observe=["DeleteByNet", "DeleteByIP", "Enumerate after delete"])

prop("C11", "IP tree enumeration is complete, canonical and ordered",
 "Enumeration yields each stored network exactly once with its current value - the key masked to its prefix, 4-byte form for IPv4 and 16-byte form for IPv6 - and then closes. IPv4 networks come before IPv6 ones and within a family they come in address order, a containing network before those inside it. Inserting everything it yields into an empty tree reproduces the tree's answers.",
 ["histories", "inputs"], "all contents reachable by any history, in all five IP-tree packages",
 "Tests list one five-network tree; reassembly of 128-bit keys from two halves over all prefix lengths is not covered.",
 IP + NUM, [("key reassembly", "iptree/iptree.go enumerate, uintX/iptree8/iptree.go enumerate"), ("address packing", "packIPToUint32/packIPToUint64 and inverses")],
 observe=["Enumerate"])

prop("C12", "Updating descendants touches exactly the networks strictly inside the target",
 "For a target network that is stored, updating descendants calls the callback exactly once for each stored network of the same family strictly inside the target - not the target - with its canonical key and current value, and replaces the value exactly where the callback says so. Everything else keeps its value. When the target is not itself stored, nothing is called or changed.",
 ["histories", "inputs"], "all contents, all targets (stored or not) in both families, all callback answer patterns",
 "Tests cover fourteen fixed trees; targets at exactly 64 bits, structural branching points and nested halves of IPv6 need generated contents.",
 ["iptree/iptree.go"] + NUM, [("target search and enumeration", "iptree/iptree.go UpdateDescendants"), ("key rebuild", "iptree/iptree.go updateNode64")],
 observe=["UpdateDescendants callback trace", "Enumerate before/after"])

prop("C13", "Domain lookup returns the closest stored ancestor-or-self",
 "Looking up a domain name returns the value of the stored name that equals it or is its closest stored ancestor (the root name being an ancestor of all), regardless of letter case and escapes, and (zero value, false) when none is stored. This holds after any history of copying inserts, in-place inserts and deletes, for names up to 127 labels.",
 ["histories", "inputs"], "all histories and all queried names, in all five domain-tree packages",
 "Tests look up eight names in one six-name tree; the root entry and deep names are never looked up.",
 DOM + DL + NAME, [("label walk remembering the last value", "domaintree/domaintree.go Get"), ("insertion along labels", "domaintree/domaintree.go Insert/InplaceInsert")],
 observe=["Node.Get"])

prop("C14", "Domain Delete removes that name only and prunes nothing else",
 "Deleting a domain name removes the entry of exactly that name if there is one - leaving its stored ancestors, siblings and subdomains with their values - and reports truthfully whether there was one. A name that is only implied by stored subdomains, or absent, is not deleted and contents stay the same; names of up to 127 labels and the root name behave alike, and a tree whose last name is deleted behaves as an empty one.",
 ["histories", "inputs"], "all histories and all deleted names, in all five domain-tree packages",
 "Tests delete five names of two or three labels; depth limits, root entries and cascaded pruning are not covered.",
 DOM + DL, [("path collection and rebuild", "domaintree/domaintree.go Delete/getBranch/copyBranch")],
 observe=["Node.Delete", "Enumerate/Get afterwards"])

prop("C15", "DeleteSubdomains removes a name and everything below it, nothing else",
 "Deleting subdomains of a name removes the entries of that name and of every stored name below it and no others, and reports true exactly when at least one entry was removed. This holds whether the name itself has an entry or only stored subdomains do, for the root name (which clears the tree) and for names of up to 127 labels.",
 ["histories", "inputs"], "all histories and all names, in all five domain-tree packages",
 "Tests delete six subtrees of fixed two-level trees.",
 DOM + DL, [("branch removal and pruning", "domaintree/domaintree.go DeleteSubdomains/copyBranch")],
 observe=["Node.DeleteSubdomains", "Enumerate/Get afterwards"])

prop("C16", "Domain enumeration is complete, re-parsable and repeatable",
 "Enumeration yields every stored name exactly once with its current value and then closes; each yielded key is a spelling that parses back to that very name, whatever bytes its labels contain, with the root name as the empty string. Enumerating the same tree again yields the same sequence, and re-inserting a sequence into an empty tree gives a tree with the same answers.",
 ["histories", "inputs"], "all contents reachable by any history, labels of arbitrary bytes, in all five domain-tree packages",
 "Tests list plain ASCII names only; escaping of dots, backslashes and non-printable bytes inside multi-label names is not covered.",
 DOM + DL + NAME, [("recursive enumeration building keys", "domaintree/domaintree.go enumerate"), ("label escaping", "domain/label.go MakeHumanReadableLabel")],
 observe=["Node.Enumerate", "domain.MakeNameFromString"])

prop("C17", "Copying updates of string and label trees leave every older tree intact",
 "Copying insert and delete on string-keyed and label-keyed trees (successful, unsuccessful, or ended early by a panicking comparator) leave every previously obtained tree exactly as it was: same lookups, same enumeration, same emptiness, same dumped structure. Older trees stay fully usable, so any number of divergent successors can be derived from any of them and each behaves as if it alone had been built.",
 ["histories"], "all version trees: any operation applied to any version at any time",
 "Tests check two or three retained roots; a missed node copy corrupts an older version only for particular shapes and operations.",
 STR + DL, [("path copying in insert", "strtree/node.go insert, dltree/node.go insert"), ("copying of rotated and recoloured nodes in delete", "strtree/node.go del, dltree/node.go del")],
 observe=["Get/Enumerate/Dot of retained versions"])

prop("C18", "Copying updates of radix and IP trees leave every older tree intact",
 "Copying insert and delete on numeric radix trees and on IP trees leave every previously obtained tree exactly as it was: same matches, same exact lookups, same enumeration, same dumped structure. Older trees stay usable for deriving any number of divergent successors, in the generic and the fixed-width packages.",
 ["histories"], "all version trees over both key widths and both IP families",
 "Tests retain few versions; sharing errors around replaced nodes, collapsed branches and the 64-bit IPv6 split depend on history.",
 NUM + IP, [("path copying", "numtree/node32.go insert/del, numtree/node64.go insert/del"), ("two-level copying", "iptree/iptree.go InsertNet/DeleteByNet")],
 observe=["Match/ExactMatch/Enumerate/Dot and GetByNet/Enumerate of retained versions"])

prop("C19", "Copying updates of domain trees leave every older tree intact",
 "Copying insert, delete and subdomain-delete on domain trees leave every previously obtained tree exactly as it was: same lookups and same enumeration. Older trees stay usable for deriving any number of divergent successors, in the generic and the fixed-width packages.",
 ["histories"], "all version trees",
 "Tests compare six successive inserts; deletes are never checked against retained trees.",
 DOM + DL, [("copying of the nodes along a name", "domaintree/domaintree.go Insert/Delete/DeleteSubdomains/copyBranch")],
 observe=["Get/Enumerate of retained versions"])

prop("C20", "In-place and copying insertion are interchangeable",
 "For every tree kind, performing any step of an insertion history in place instead of by copying - including in-place insertion into a tree that was built, or pruned by deletes, through the copying operations - gives a tree with the same lookups, enumeration and subsequent behaviour. In-place insertion always takes effect on the tree it is called on, including when the tree is empty or the key is already present.",
 ["histories"], "all histories and all choices of mode per step, in all tree packages",
 "Tests build trees entirely in one mode; mixed-mode histories were never run.",
 STR + DL + NUM + IP + DOM, [("second insertion algorithm per package", "inplaceInsert, InplaceInsert, InplaceInsertNet, InplaceInsertIP, RawInplaceInsert")],
 observe=["differential runs of the same history"])

prop("C21", "Domain-name parsing accepts exactly the documented names",
 "Parsing any byte string returns and never panics. It succeeds exactly for the empty name, the single dot, and dot-separated non-empty labels (an optional final dot allowed) with well-formed escapes of values up to 255, labels of at most 63 bytes, at most 127 labels and at most 255 bytes in length-prefixed form. Otherwise the error is one of the documented ones whose condition the input really violates.",
 ["inputs"], "all byte strings",
 "Tests try about a dozen strings; limits interact (escapes shrink labels, a trailing dot, 127 labels against 255 bytes) and need boundary search.",
 NAME, [("label scanner", "domain/label.go markLabels"), ("label decoder", "domain/label.go getLabel"), ("assembly with length checks", "domain/name.go MakeNameFromString")],
 observe=["domain.MakeNameFromString"])

prop("C22", "A parsed name exposes its labels canonically, independent of spelling",
 "A parsed name's labels, iterated last label first, are the bytes its spelling denotes with ASCII letters upper-cased, so spellings differing only in letter case, escapes or a trailing dot expose identical labels while the name still prints as originally written. Offset-based stepping visits the same labels in the same order, ends with offset 0, and answers -1 without panicking for non-zero offsets outside the name; label iteration stops at and returns the callback's first error.",
 ["inputs"], "all valid names and all respellings of them, all integer offsets",
 "Tests use one or two plain names.",
 NAME, [("canonical form construction", "domain/name.go MakeNameFromString"), ("iteration", "domain/name.go GetLabels/GetLabel")],
 observe=["Name.GetLabels", "Name.GetLabel", "Name.String"])

prop("C23", "Label encoding and escaping are mutually inverse and never panic",
 "For every binary label of at most 63 bytes without lower-case letters, its human-readable form contains only printable characters, no upper-case letters and no unescaped dot, and decodes back to the same label; decoding any spelling upper-cases ASCII letters, resolves escapes, ignores a final dot, and fails exactly on malformed escapes or more than 63 bytes. Making a byte string of any length human-readable never panics; beyond capacity it yields the longest run of whole escaped characters fitting 252 bytes.",
 ["inputs"], "all byte strings as binary labels, all spellings of one label",
 "Tests use a few labels; 256 byte values at every position and the capacity limit need generation.",
 ["domain/label.go"], [("encoder", "domain/label.go MakeHumanReadableLabel"), ("decoder", "domain/label.go MakeLabel/getLabel")],
 observe=["domain.MakeLabel", "domain.MakeHumanReadableLabel"])

prop("C24", "Absent trees act as empty ones and malformed keys are ignored",
 "A nil tree answers like an empty tree for every read, copying update and enumeration in every package: nothing found (zero value, false), nothing deleted, enumeration closes at once, and insertion creates a one-entry tree. Nil, wrong-length, mixed-family or non-contiguous-mask networks and addresses are ignored by IP trees: lookups find nothing, deletes report false, inserts, in-place inserts and descendant updates with a malformed network change nothing.",
 ["inputs", "histories"], "all tree states including nil and all malformed network/address values, in any position of a history",
 "Tests try one or two malformed networks on one tree.",
 STR + DL + NUM + IP + DOM, [("nil receivers", "Insert/Get/Delete/Enumerate in every package"), ("argument validation", "iptree/iptree.go iPv4NetToUint32/iPv6NetToUint64Pair/newIPNetFromIP")],
 observe=["results of operations on nil trees and with malformed arguments"])

prop("C25", "Shared trees may be read and copied-from concurrently without locking",
 "Any number of goroutines may at the same time look up, enumerate, and derive new trees by copying inserts and deletes from the same tree, and parse and print names, without data races. Each goroutine gets the results it would get running alone, and the shared tree is unchanged afterwards.",
 ["schedules", "histories"], "all concurrent programs of reads and copying updates over shared trees, in all packages",
 "Tests are single-threaded; a transient write to a shared node or a shared scratch buffer shows only with concurrent use under a race detector.",
 STR + DL + NUM + IP + DOM + NAME, [("copy-on-write, no shared mutable state", "insert/del in every package"), ("stack-local scratch buffers", "domain/name.go, domain/label.go, domaintree/domaintree.go")],
 observe=["race detector reports", "per-goroutine results"])

prop("C26", "A running enumeration is an immutable snapshot",
 "An enumeration yields exactly the contents its tree had when it was started, even if copying inserts and deletes are applied to that tree, or to trees derived from it, between any two received elements, and even if several enumerations of the same or related trees are consumed interleaved. After the last element its channel is closed.",
 ["histories", "schedules"], "all points of an enumeration at which updates happen, all interleavings of several enumerations, in all packages",
 "Tests drain every enumeration at once.",
 STR + DL + NUM + IP + DOM, [("goroutine walking immutable nodes", "Enumerate/enumerate in every package")],
 observe=["Enumerate channels"])

prop("C27", "Graph dumps describe the tree faithfully",
 "The Graphviz dump of a string, label or numeric tree is a well-formed digraph of one connected tree: vertices numbered consecutively, each non-root vertex the target of exactly one edge, every inner vertex with two (possibly nil) children. Its data vertices carry, in left-to-right order, exactly the enumerated entries with quoted keys and values, whatever bytes they contain; an empty tree dumps as a single nil vertex and a nil tree as no more than that.",
 ["histories", "inputs"], "all contents and shapes, keys and values of arbitrary bytes",
 "Tests compare dumps of a few fixed trees with plain keys.",
 ["strtree/strtree.go", "strtree/node.go"] + [f"uintX/strtree{b}/node.go" for b in U] + DL + NUM, [("breadth-first dump", "strtree/node.go dot, dltree/node.go dot, numtree/node32.go Dot, numtree/node64.go Dot")],
 observe=["Dot"])

prop("C28", "The template tool instantiates a whole catalogue faithfully",
 "For any template file or directory tree and any data document, the generator creates one output per template file, at the path whose components are the rendered component names, with exactly the rendered contents, mirroring all nested and empty directories, and modifies neither the templates nor anything else. A dotted selector picks the nested part of the data used for rendering; a missing selector, unreadable data, a template file or directory that cannot be read, a template or name that does not parse or cannot be executed, an output that cannot be made or written completely, or a template whose name renders to itself makes it fail with a non-zero status.",
 ["inputs", "configurations"], "all template trees (any depth and naming), data documents and selectors",
 "Tests cover three path helpers on fixed strings; nothing executes the generator.",
 ETC, [("recursive execution", "etc/main.go execute"), ("selection", "etc/data.go sel"), ("path handling", "etc/names.go"), ("rendering", "etc/template.go, etc/file.go")],
 observe=["exit status and resulting file tree of the built command"])

prop("C29", "Shipped fixed-width packages behave as fresh instances of their templates",
 "Instantiating the fixed-width tree templates with the generator and the shipped data document, for each of the four widths, yields packages that compile. Under every history each instance answers every operation exactly as the package shipped for that width does, and as the abstract map it implements does.",
 ["programs", "histories"], "all twelve template/width pairs and all operation histories",
 "The build and tests never run the generator, so templates and shipped packages can drift apart unnoticed.",
 TPL + STR[2:] + IP[1:] + DOM[1:], [("template instantiation", "uintX/uintX.yaml, etc"), ("shipped instances", "uintX/*tree{8,16,32,64}")],
 observe=["differential runs of shipped and freshly generated packages"])

prop("C30", "Fixed-width trees and generic trees are interchangeable",
 "Under every history, a fixed-width string, IP or domain tree gives the same lookups, flags, emptiness and enumeration (order included) as the generic tree of that kind given the same calls, for every value its width can hold. Values are returned bit for bit, including 0 and the largest value; 0 stored is distinguishable from nothing stored.",
 ["histories", "inputs"], "all histories and all values of each width, twelve fixed-width packages against three generic ones",
 "Each package is tested alone on small values; equivalence between packages is never tested.",
 STR + IP + DOM, [("parallel implementations", "uintX/* versus strtree, iptree, domaintree")],
 observe=["differential runs"])

prop("C31", "Stored values are opaque",
 "The generic trees store and return any value unchanged and never interpret it: nil, typed nil pointers, uncomparable values such as slices, maps and functions, pointers, and values of the library's own tree types come back identical from lookups and enumeration. A stored nil is distinguishable from nothing stored, and the value never influences where or whether an entry is found or deleted.",
 ["inputs", "histories"], "all Go values, in histories over the generic string, label, numeric, IP and domain trees",
 "Tests store strings only.",
 ["strtree/node.go", "dltree/node.go", "iptree/iptree.go", "domaintree/domaintree.go"] + NUM, [("presence tracked apart from value", "numtree Leaf, domaintree hasValue"), ("private wrapper type for the IPv6 split", "iptree/iptree.go subTree64")],
 observe=["Get/Match/GetByNet/Enumerate results compared by identity"])

prop("C32", "IP trees share no memory with their callers",
 "Changing the bytes of an address or mask after it was passed to an IP tree never changes the tree, operations never modify the addresses and networks passed to them, and changing the keys an enumeration or an update callback yields never changes the tree or later results, just as those keys keep their bytes while later ones are produced.",
 ["histories", "inputs"], "all histories in which callers reuse and overwrite their address, mask and key buffers at any time",
 "Tests never modify a network after use.",
 IP, [("packing into integers", "packIPToUint32/packIPToUint64"), ("fresh keys on enumeration", "enumerate, updateNode64")],
 observe=["arguments after calls", "tree answers after argument mutation"])

prop("C33", "Names recovered through reflection are the names put in",
 "Extracting a name by reflection from a name, a pointer to a name, or a string (or pointer to a string) spelling one gives a name that prints the same and has the same labels as the original or as parsing that string. For values of any other type, and for strings that do not parse, it panics with an error instead of returning a name.",
 ["inputs"], "all names, all strings, values of assorted other types",
 "Tests check one name and two failing values.",
 ["domain/name.go"], [("reflection dispatch", "domain/name.go MakeNameFromReflection")],
 observe=["domain.MakeNameFromReflection"])

prop("C34", "Copying updates and lookups touch a path, not the whole tree",
 "A copying insert, delete or subdomain-delete on any tree, whether or not it changes anything, allocates memory in proportion to the length of the path to its key - for string and label trees the logarithm of the number of entries, for numeric and IP trees the key width, for domain trees the labels times the logarithm - and never in proportion to the number of entries or of deleted entries: the new tree shares everything else with the old one. Lookups likewise.",
 ["histories", "inputs"], "trees of thousands of entries of every kind and shape, any key present, absent or inner",
 "Tests compare contents of trees with a few entries; a deep copy passes all of them.",
 STR + DL + NUM + IP + DOM, [("copy on write along the path", "strtree/node.go insert, numtree insert/del, domaintree Insert/Delete")],
 observe=["memory allocated by Insert/Delete/Get on large trees"])

prop("C35", "What a tree holds follows from its contents, not its history",
 "After any history the memory reachable from a tree is, up to a small constant factor, that of a tree built afresh from the same contents: nodes of removed entries, and branching points or name levels only they needed, are gone. Once older trees are dropped, values that were removed or replaced are not kept alive by the newer one, while stored values are. Once all trees are dropped nothing of them stays behind: building, using and dropping trees with ever new keys does not make the memory held by the library grow.",
 ["histories"], "all histories of inserts (copying or in place) and deletes, in particular ones that remove most of what they inserted",
 "Tests never look at what is left behind by many inserts and deletes.",
 STR + DL + NUM + IP + DOM, [("nodes dropped by delete", "strtree/node.go del, numtree del, domaintree Delete/DeleteSubdomains"), ("values dropped by delete of an inner name", "domaintree Delete")],
 observe=["objects reachable from a tree", "weak references to stored values after garbage collection"])

prop("C36", "Finished operations leave nothing running",
 "When every enumeration that was started has been consumed until its channel closed, and all other calls have returned, no goroutine started by the library keeps running or waiting - for every tree kind, for nil and empty trees, for interleaved enumerations, and after descendant updates.",
 ["histories", "schedules"], "all histories with any number of enumerations and descendant updates",
 "Tests consume enumerations but never look for goroutines left behind.",
 STR + DL + NUM + IP + DOM, [("enumeration goroutines", "Enumerate of every package, nested in iptree and domaintree"), ("descendant update draining its enumeration", "iptree UpdateDescendants")],
 observe=["number of goroutines before and after"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
import re
for p in P:
    n = len(re.findall(r"[.;]\s|\.$", p["statement"]))
    s = len(re.findall(r"\.(?:\s|$)", p["statement"]))
    if s > 3: print(p["id"], s, "sentences")
