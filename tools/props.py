#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me after editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Imported bytes are read back unchanged",
 "For every byte sequence, chunking, fan-out of at least two, leaf kind (raw or wrapped) and CID format, building a file with the balanced or the trickle importer succeeds, stores every block of the returned DAG under its own hash, and the concatenation of its leaves is exactly the input, in order. Reading the returned DAG through the library's own reader, and through an independent decoder of the published format, gives exactly those bytes and that length.",
 ["inputs","configurations"],"all lengths, chunkings, fan-outs, layouts, leaf kinds and CID formats",
 "The tests import a few fixed or random sizes with one or two fan-outs; the tree shape changes at powers of the fan-out and layer boundaries that they do not enumerate.",
 ["importer/balanced/builder.go","importer/trickle/trickledag.go","importer/helpers/dagbuilder.go","importer/importer.go","io/dagreader.go"],
 [("balanced.Layout","importer/balanced/builder.go"),("trickle.Layout","importer/trickle/trickledag.go"),("DagBuilderHelper","importer/helpers/dagbuilder.go")],
 ["importer.BuildDagFromReader","importer.BuildTrickleDagFromReader","balanced.Layout","trickle.Layout","io.NewDagReader"])
p("C02","Balanced layout is canonical",
 "The DAG the balanced importer produces is a function of the chunk sequence, the fan-out, the leaf kind and the CID format alone, and is the published canonical one: every leaf at the same depth, every node but the last of each level filled to the fan-out, chunks left to right, and no more levels than needed. An independent implementation of that definition produces the identical root CID for the same chunks.",
 ["inputs","configurations"],"every number of chunks (so every tree shape) up to several full levels, every chunk content pattern, fan-out, leaf kind and CID format",
 "The tests check depth uniformity for a handful of sizes and never the exact canonical tree; CID stability is a claim about every chunk count.",
 ["importer/balanced/builder.go","importer/helpers/dagbuilder.go","importer/importer.go"],
 [("Layout/fillNodeRec","importer/balanced/builder.go")],["balanced.Layout","importer.BuildDagFromReader"])
p("C03","Trickle layout is canonical",
 "The DAG the trickle importer produces is a function of the chunk sequence, the fan-out, the leaf kind and the CID format alone, and is the published canonical one: a node holds up to fan-out leaves followed by subtrees whose maximum depth grows by one after every four siblings, each filled before the next is begun. An independent implementation of that definition produces the identical root CID, and the library's own structure verifier accepts every imported one and rejects a DAG in which a leaf stands where a subtree belongs or the reverse, a subtree is deeper than its place allows, a node that is not a leaf holds data, or a node has another leaf kind or CID format than asked for.",
 ["inputs","configurations"],"every number of chunks over several layers, fan-outs, leaf kinds and CID formats; every single structural mutation of a small DAG for the verifier",
 "The tests verify the structure of a few sizes with the code's own verifier only.",
 ["importer/trickle/trickledag.go","importer/helpers/dagbuilder.go","importer/importer.go"],
 [("Layout/fillTrickleRec","importer/trickle/trickledag.go"),("VerifyTrickleDagStructure","importer/trickle/trickledag.go")],
 ["trickle.Layout","importer.BuildTrickleDagFromReader","trickle.VerifyTrickleDagStructure"])
p("C04","Appending to a trickle DAG continues it",
 "Appending chunks to a trickle DAG, any number of times, gives a DAG whose content is the old content followed by the appended bytes and which is a valid trickle DAG; when the leaves are of one kind it is identical to importing all the chunks at once. The blocks of the original DAG are unaltered and the original still reads as before.",
 ["inputs","histories"],"every base size, every append size and sequences of up to three appends, over several fan-outs and leaf kinds",
 "The tests append to three or four particular base sizes with one fan-out.",
 ["importer/trickle/trickledag.go","importer/helpers/dagbuilder.go"],
 [("Append/appendRec/appendFillLastChild","importer/trickle/trickledag.go")],["trickle.Append","trickle.VerifyTrickleDagStructure"])
p("C05","Recorded sizes agree with content",
 "In every file DAG this library builds, appends to or edits in memory, each inner node records one block size per link equal to the bytes that subtree contributes, its recorded file size is the sum of its own inline data and those sizes, and each link records the cumulative encoded size of what it points to. Adding, removing and replacing children or data through the UnixFS node helpers keeps the recorded file size equal to inline data plus block sizes.",
 ["inputs","histories","configurations"],"all imports and appends up to several layers; every operation sequence up to a depth on a node",
 "Tests read FileSize of a few roots; the per-link sizes deep in the tree are what seeking relies on and are never inspected.",
 ["importer/helpers/dagbuilder.go","importer/balanced/builder.go","importer/trickle/trickledag.go","unixfs.go"],
 [("FSNode.AddBlockSize/RemoveBlockSize/UpdateFilesize","unixfs.go"),("FSNodeOverDag.AddChild","importer/helpers/dagbuilder.go")],
 ["balanced.Layout","trickle.Layout","trickle.Append","FSNode.FileSize","unixfs.DataSize"])
p("C06","DagReader is a ReadSeeker over the content",
 "A reader over a file DAG of any layout behaves as a seekable reader over the file's byte string: every sequence of reads of any length, seeks from any origin and whole-rest copies returns the bytes and positions a byte-string reader would, ends with end-of-file exactly at the end, and Size is the content length. A seek to a negative or otherwise invalid position fails and leaves the position and later reads unaffected; a seek beyond the end is not an error and reading there returns end-of-file with no data.",
 ["inputs","histories","configurations"],"every operation sequence, file size and DAG shape up to the bounds; both layouts, raw and wrapped leaves, hand-built DAGs of irregular shape",
 "The tests run a few fixed sequences on one layout; the bugs live in particular combinations of position, buffer and node boundaries.",
 ["io/dagreader.go"],
 [("dagReader.Seek/CtxReadFull/WriteTo","io/dagreader.go")],["io.NewDagReader","DagReader.Read","DagReader.Seek","DagReader.WriteTo","DagReader.CtxReadFull"])
p("C07","A reader never passes off a failure as data or end-of-file",
 "When fetching a block fails, a context is cancelled or the destination writer fails or writes short, the reader reports an error rather than end-of-file, and every byte it did deliver is the right byte for its position. Once the cause has gone, reading on (or seeking and reading) from the position the delivered bytes imply continues with exactly the remaining content.",
 ["fault_sequences","histories","crash_points"],"every fetch point of every short read/seek/copy history failing, singly and in pairs, every cancellation point, and every writer failure point",
 "Tests never make a fetch fail in the middle of a read; the number of failure points grows with the DAG and the history.",
 ["io/dagreader.go"],
 [("dagReader.CtxReadFull/readNodeDataBuffer/writeNodeDataBuffer","io/dagreader.go")],["DagReader.Read","DagReader.CtxReadFull","DagReader.WriteTo","DagReader.Seek"])
p("C08","DagModifier is a mutable byte file",
 "A file being modified behaves, for every sequence of Write, WriteAt, Seek, Read, Truncate, Size, Sync, GetNode and reads of any size, like an in-memory byte array with a cursor: writes replace or extend at the cursor, writing or seeking past the end fills with zeros, Truncate cuts or extends, negative positions are rejected, and reads return the current bytes. The node handed out after any prefix decodes to exactly those bytes and length, whichever layout, chunk size, leaf kind or starting DAG is used.",
 ["histories","inputs","configurations"],"all operation sequences to the bound from several starting files and configurations",
 "Tests exercise single writes at chosen offsets; interactions between pending writes, the cached reader, sparse growth and truncation need sequences.",
 ["mod/dagmodifier.go"],
 [("DagModifier.WriteAt/Write/Sync/modifyDag/appendData/expandSparse/Truncate/Seek","mod/dagmodifier.go")],
 ["mod.NewDagModifier","DagModifier.*"])
p("C09","Nodes handed to or out of DagModifier are snapshots",
 "A node passed to a DagModifier and every node obtained from it keep their CID, bytes and content whatever is done to the modifier afterwards, and each obtained node's whole DAG is in the DAG service at the moment it is handed out.",
 ["histories"],"all operation sequences to the bound with snapshots taken at every step",
 "Tests look at the last node only; aliasing shows when an old snapshot is looked at after later edits.",
 ["mod/dagmodifier.go"],[("GetNode/Sync copies","mod/dagmodifier.go")],["DagModifier.GetNode","mod.NewDagModifier"])
p("C10","A failed store or fetch does not corrupt a file being modified",
 "When storing or fetching a block fails during an operation on a DagModifier, the operation reports the error, and afterwards the content is either what it was before or what the operation's completed part makes it: never bytes that neither has. Once storage works again, repeating the operation or Sync succeeds, nothing already accepted is lost, and nothing is applied twice.",
 ["fault_sequences","histories","crash_points"],"every storage call of every operation sequence to the bound failing once or twice",
 "No test makes the DAG service fail.",
 ["mod/dagmodifier.go"],[("Sync/Truncate/appendData","mod/dagmodifier.go")],["DagModifier.*"])
p("C11","A sharded directory is a map",
 "A HAMT-sharded directory behaves as a map from names to links under every sequence of set, replace, remove, swap, take, find and reload from storage, for every fan-out and every pattern of hash collisions shorter than the whole hash: an operation reports and returns exactly what a map would and affects only the name it is given. Writing it out and loading it back, at any point of the history, gives the same map, an operation that fails leaves the map as it was, and a block that is not a shard of the supported hash function and a possible fan-out is refused rather than searched.",
 ["histories","inputs","configurations"],"every operation sequence up to the depth bound over names chosen to collide on every prefix length, with reloads anywhere, several fan-outs",
 "Tests use random large sets of names with few deep collisions and mostly only insert; collapse, swap and reload interactions are barely touched.",
 ["hamt/hamt.go","hamt/util.go"],
 [("Shard.Set/Swap/Take/Remove/Find/swapValue/childer","hamt/hamt.go")],["hamt.NewShard","hamt.NewHamtFromDag","Shard.*"])
p("C12","Sharded directories have one canonical form",
 "The DAG of a sharded directory depends only on its entries, its fan-out, its hash function and its CID format: whatever history of insertions, removals, replacements and reloads produced it, its root CID equals the one an independent builder of the published HAMT format computes for those entries, and all its blocks are in the DAG service when it is handed out. Every shard's fan-out, bitfield, link-name prefixes and link order follow that format.",
 ["histories","inputs","configurations"],"every operation history up to the depth bound, fan-out, collision pattern and CID format",
 "One test compares two orders of insertion; canonical collapse after removal needs all histories.",
 ["hamt/hamt.go","hamt/util.go"],
 [("Shard.Node/serialize","hamt/hamt.go"),("collapse on removal","hamt/hamt.go")],["Shard.Node","Shard.Set","Shard.Remove"])
p("C13","Concurrent enumeration of a directory is exact on every schedule",
 "Enumerating a sharded directory, whether as a list, a callback or an asynchronous stream, yields each entry exactly once with its right target on every interleaving of the concurrent shard fetches, the consumer and block arrivals, and then terminates: no deadlock, no send on a closed channel, no goroutine left behind, no data race. This holds for shards half in memory and half in storage and for consumers that are slow or stop early by cancelling.",
 ["schedules","inputs"],"all interleavings of the walkers and the consumer up to the preemption bound over small multi-shard directories",
 "The tests take whatever interleaving the Go scheduler happens to give on a fast in-memory store.",
 ["hamt/hamt.go","io/directory.go"],
 [("parallelShardWalk","hamt/hamt.go"),("EnumLinksAsync","hamt/hamt.go")],["Shard.EnumLinks","Shard.ForEachLink","Shard.EnumLinksAsync","Directory.EnumLinksAsync"])
p("C14","An incomplete directory listing is never passed off as complete",
 "If a shard of a sharded directory cannot be fetched or decoded, or the context is cancelled during enumeration, the enumeration reports an error: a listing that ends without an error is the complete set of entries. (An asynchronous stream whose own consumer cancelled it may just end.) Every entry delivered before the error is genuine and delivered once, and the enumeration always terminates.",
 ["fault_sequences","schedules","inputs"],"every subset of up to two failing shard fetches and every cancellation point, for list, callback and stream forms, over the interleavings the bound allows",
 "One test lists a complete directory and one a missing-shard case; cancellation in the middle is not tested.",
 ["hamt/hamt.go","io/directory.go"],
 [("parallelShardWalk/EnumLinksAsync/emitResult","hamt/hamt.go")],["Shard.EnumLinks","Shard.ForEachLink","Shard.EnumLinksAsync","Directory.Links","Directory.EnumLinksAsync"])
p("C15","A directory is a map whichever representation it uses",
 "A Directory behaves as a map from names to nodes under every sequence of AddChild, RemoveChild, Find, Links, ForEachLink, EnumLinksAsync, GetNode and reload, across any number of switches between the basic and the sharded representation: re-adding replaces, removing or finding an absent name reports that it does not exist, and listings hold exactly the present entries with the right targets and sizes. A node handed out by GetNode, saved, reloads to the same directory.",
 ["histories","configurations"],"every operation sequence up to the depth bound, with the switching threshold off, tiny, or in between, and with reloads anywhere",
 "Tests cross the threshold in one direction with a few entries and rarely reload in between.",
 ["io/directory.go","hamt/hamt.go","unixfs.go"],
 [("DynamicDirectory.AddChild/RemoveChild","io/directory.go"),("BasicDirectory","io/directory.go"),("HAMTDirectory","io/directory.go")],
 ["io.NewDirectory","io.NewDirectoryFromNode","Directory.*"])
p("C16","The directory representation follows the size threshold",
 "With a positive threshold, a directory created through the dynamic interface, or loaded in the form the threshold asks for, is sharded after every update exactly when the estimated size of its entries (name lengths plus CID lengths) is at or above the threshold, and basic when below, so the form and the CID depend on the entries alone and not on the order of operations. The threshold that counts is the one there is at the operation: when it is changed or switched on under an open directory, adding an entry shards a directory whose size is then at or above it, and a sharded one at or above it stays sharded. With the threshold at zero the switch never happens, and whatever the form the serialised node is the canonical one for the entries.",
 ["histories","configurations"],"every operation sequence up to the depth bound over names of different lengths, thresholds at, just below and just above the sums that occur, reloads anywhere",
 "Tests check a few crossings with uniform entries; the size bookkeeping differs between every path (add, replace, remove, reload, switch).",
 ["io/directory.go"],
 [("estimatedSize/sizeChange/needsToSwitchToHAMTDir/needsToSwitchToBasicDir/sizeBelowThreshold","io/directory.go")],["Directory.AddChild","Directory.RemoveChild","Directory.GetNode"])
p("C17","A failed directory update changes nothing",
 "When storing or fetching a block fails, or the context is cancelled, during a directory update or while a directory is handed out, the caller gets an error and the directory's entries are what they were before that call; other entries are never lost or altered. Once storage works again, repeating the operation succeeds and the result is the same directory as if there had been no fault.",
 ["fault_sequences","histories","crash_points"],"every storage call of every short operation sequence failing once (twice in the thorough tier), in basic, sharded and switching directories",
 "No test makes the DAG service fail in the middle of an update.",
 ["io/directory.go","hamt/hamt.go"],
 [("AddChild/RemoveChild/GetNode","io/directory.go"),("swapValue","hamt/hamt.go")],["Directory.AddChild","Directory.RemoveChild","Directory.GetNode","Directory.Links"])
p("C18","Path resolution agrees with the directory",
 "Resolving one step of a path through a node returns, for a basic or sharded directory of any shape, exactly the link the directory holds for that name, consumes exactly that one path segment, and reports not-found for every absent name, including names that collide with, extend or are prefixes of present ones and internal shard link names. For nodes that are not directories it is link lookup by name, and faults in fetching a shard surface as errors, not as not-found.",
 ["inputs","configurations","fault_sequences"],"every subset of a colliding name set, both representations, every queried name including adversarial ones, every fetch failing",
 "One test resolves one name.",
 ["io/resolve.go","hamt/hamt.go"],
 [("ResolveUnixfsOnce","io/resolve.go"),("Shard.Find","hamt/hamt.go")],["io.ResolveUnixfsOnce"])
p("C19","The files view of a DAG is the tree it encodes",
 "Viewing a UnixFS DAG as a file tree gives exactly the encoded tree: files with their content and size, symlinks with their target, directories (basic or sharded) with exactly their entries, recursively, and the cumulative size; writing the view out and importing it back gives the same DAG. A child that cannot be fetched or decoded makes the iteration report an error, never a shorter listing or a truncated file with no error.",
 ["inputs","configurations","fault_sequences"],"every tree up to a bounded size and depth with every kind of node at every place; every fetch failing",
 "There is a single test of one file and one small tree.",
 ["file/unixfile.go","io/directory.go","io/dagreader.go"],
 [("NewUnixfsFile/ufsIterator/setSize","file/unixfile.go")],["file.NewUnixfsFile"])
p("C20","UnixFS nodes encode and decode without loss",
 "Encoding any UnixFS node (type, data, block sizes, file size, hash type, fan-out, symlink target, metadata MIME type) and decoding it gives back the same values, the encoding is the published one byte for byte (an independent codec agrees in both directions), and size queries report the content length for every type that has one and an error for those that do not. Decoding never accepts bytes that violate the format's required fields.",
 ["inputs"],"all types, data lengths, block-size lists and field presence combinations up to the bound",
 "Tests round-trip a few nodes of some types.",
 ["unixfs.go","pb/unixfs.pb.go","io/directory.go"],
 [("FSNode/FSNodeFromBytes/DataSize/BytesForMetadata/SymlinkData","unixfs.go")],
 ["FSNode.GetBytes","FSNodeFromBytes","ExtractFSNode","DataSize","ReadUnixFSNodeData","MetadataFromBytes","BytesForMetadata"])
p("C21","An import either succeeds completely or fails",
 "If the input source, the chunker or the DAG service fails at any point of an import or append, or a chunk is larger than the block size limit, the importer returns an error; without an error the DAG it returns stands for the whole input, and every block of it (for an append: every block but the root, which is the caller's to store) was accepted by the DAG service.",
 ["fault_sequences","inputs","configurations"],"every read, chunk and store call of imports of every shape up to the bound failing",
 "No test injects a failure into an import; only one covers an oversized leaf.",
 ["importer/helpers/dagbuilder.go","importer/balanced/builder.go","importer/trickle/trickledag.go","importer/importer.go"],
 [("DagBuilderHelper.prepareNext/Next/Add","importer/helpers/dagbuilder.go"),("Layout","importer/balanced/builder.go")],
 ["balanced.Layout","trickle.Layout","trickle.Append","importer.BuildDagFromReader"])
p("C22","The requested CID format reaches every node",
 "Every node of a DAG built, appended to, modified or sharded with a given CID format has that CID version, hash function and digest length, except leaves stored raw, which are CIDv1 raw with the same hash function; and leaves are raw exactly when raw leaves were asked for. No operation silently falls back to the default format at any level of the DAG.",
 ["configurations","histories","inputs"],"all shapes up to several levels for CIDv0, CIDv1, non-default hashes and digest lengths, given as a prefix or as a builder, for imports, appends, modifications, basic and sharded directories",
 "Tests inspect the root, at most one level, for a couple of formats.",
 ["importer/helpers/dagbuilder.go","importer/trickle/trickledag.go","mod/dagmodifier.go","hamt/hamt.go","io/directory.go"],
 [("CidBuilder propagation","importer/helpers/dagbuilder.go"),("SetCidBuilder","hamt/hamt.go")],
 ["node CIDs"])
p("C23","Malformed DAGs give errors, never panics or hangs",
 "Loading, reading, listing, resolving in, viewing or modifying a DAG whose blocks are validly hashed but malformed in any way (missing, truncated or contradictory UnixFS fields, wrong link counts, bad bitfields and fan-outs, short or odd link names, missing blocks, wrong node kinds) returns an error or a best-effort result; it never panics, never loops for ever, and allocates in proportion to what is stored. Well-formed parts keep reading correctly.",
 ["inputs"],"every single and selected double mutation of the fields, links and bytes of small well-formed nodes of every type, through every public entry point",
 "Tests feed a few malformed byte strings to one or two functions.",
 ["unixfs.go","hamt/hamt.go","hamt/util.go","io/dagreader.go","io/directory.go","io/resolve.go","file/unixfile.go","mod/dagmodifier.go","importer/trickle/trickledag.go"],
 [("NewHamtFromDag","hamt/hamt.go"),("FSNodeFromBytes","unixfs.go")],
 ["hamt.NewHamtFromDag","io.NewDagReader","io.NewDirectoryFromNode","io.ResolveUnixfsOnce","file.NewUnixfsFile","mod.NewDagModifier"])
p("C24","No-copy imports record where each leaf's bytes are",
 "When a file is imported or appended without copying and with raw leaves from a source with a path, every leaf that holds data and is handed to the DAG service carries that path and the exact offset of its bytes in the source, so that the bytes at that offset are the leaf's; a copying import records no positions; the resulting DAG is identical to that of a copying import, and asking for no copying from a source with no path is refused.",
 ["inputs","configurations"],"every number of chunks, chunking and leaf kind for both layouts",
 "There is no test of leaf offsets in this repository.",
 ["importer/helpers/dagbuilder.go","importer/balanced/builder.go","importer/trickle/trickledag.go"],
 [("DagBuilderHelper.ProcessFileStore/offset","importer/helpers/dagbuilder.go")],["DAGService.Add of FilestoreNode"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
