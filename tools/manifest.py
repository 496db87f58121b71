#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run me after editing)."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
C={}
def c(id,level,technique,note): C[id]=(level,technique,note)
ENUM="exhaustive bounded enumeration of the real code's executions against an independent reference implementation"
c("C01","exploration",ENUM,"Every chunking/size/fan-out/leaf kind/CID format in the stated bounds is executed on the real importers and compared with an independent decoder. Trusts the reference codec (refm) and the in-memory DAG service.")
c("C02","exploration",ENUM,"Every chunk count up to several full tree levels and all chunk-length patterns of short inputs; oracle is an independent builder. Nothing is said about larger fan-outs than those listed beyond the default-fan-out spot scenario.")
c("C03","exploration",ENUM,"As C02 for the trickle layout, plus every single structural mutation for the verifier.")
c("C04","exploration",ENUM,"Every base size/append size in the bounds, up to three appends; content, validity and canonical identity with a one-shot import.")
c("C05","exploration",ENUM,"All shapes in the bounds plus every operation sequence on a node to the depth bound.")
c("C06","model_checking","explicit-state breadth-first search to closure over operation sequences of the real reader, checked in every state against a byte-string reader","The reader's reachable state space under the operation alphabet is explored until no new state appears, for every listed DAG shape. Inline data in inner nodes (which no importer produces and the reader skips) is outside.")
c("C07","fault_enumeration","exhaustive fault and cancellation enumeration on the real reader under a controlled goroutine scheduler, against a byte-string model","Every block failing (pairs in the thorough tier) at every place of short histories; prefetch arrival order is the explorer's (default order plus every single deviation on one shape). The library go-ipld-format may report a failed prefetch again after storage is healed, so repeated errors (not wrong data) are tolerated.")
c("C08","model_checking","explicit-state breadth-first search over operation sequences of the real DagModifier, checked in every state against a byte-array model","All operation sequences to the depth bound over a small alphabet; states are merged only on a deep structural hash of the live object and its store. Cursor position after Truncate below it, and empty writes past the end, are left unspecified.")
c("C09","model_checking","explicit-state breadth-first search over operation sequences of the real DagModifier with snapshots taken in every state","As C08; every snapshot is re-encoded and re-read after every later operation.")
c("C10","fault_enumeration","exhaustive single/double storage-fault injection over every operation sequence to the bound, against a byte-array model with a set of allowed outcomes","Every storage call of each history fails in turn.")
BFS="explicit-state breadth-first search over operation sequences of the real object, checked in every state against a map"
c("C11","model_checking",BFS,"Entry names are given chosen hashes (all names of the form <hex>!rest; others go to the real function), so every collision pattern of a few names is reached; explored to closure, states merged only on a deep structural hash of the live shard and its store. Names whose whole hashes collide are outside.")
c("C12","model_checking",BFS+" and against an independent builder of the HAMT format","As C11; in every state the node is compared with the root an independent builder computes and every block is looked up in the store.")
SCH="exhaustive exploration of goroutine schedules of the real code under a controlled scheduler (delay-bounded)"
c("C13","model_checking",SCH+", plus a happens-before race detector on those schedules","Every operation another goroutine can observe is a scheduling point (instrumented copies of the sources, made at check time); all schedules within 1 (selected shapes 2, thorough more) departures from the default order, interchangeable idle walkers merged. Unsynchronised accesses are found by the Go race detector with the explorer's own synchronisation hidden from it.")
c("C14","fault_enumeration",SCH+" combined with every single and double fetch failure, undecodable shard and cancellation point","As C13. A stream whose consumer cancelled it may end without an error.")
c("C15","model_checking",BFS,"All operation sequences to the depth bound (closure or the time limit in the thorough tier), thresholds at and around every sum of entry sizes. Empty names are outside for sharded directories.")
c("C16","model_checking",BFS+" and against an independent builder of both directory formats","As C15; in every state form and CID are compared with the canonical node for the entries.")
c("C22","exploration",ENUM,"Every node of every shape in the bounds is inspected in the store through the independent decoder; directories after every operation, sharded ones after forks and collapses, and nodes made by every constructor, over CID versions and hash functions.")
c("C17","fault_enumeration",BFS+", with every single storage fault and cancellation point of every operation injected in turn","Operation sequences to the depth bound; each operation of each explored state is repeated once per storage call with that call failing, and once per call with the context cancelled there; afterwards the directory must hold the entries of before or after and further operations must work. Sizes and thresholds around the switch of form.")
c("C18","exploration",ENUM,"Every path over small directory trees of every form (basic, sharded with forced collisions, nested), missing blocks and wrong kinds included; compared with a walk over independently decoded blocks.")
c("C19","exploration",ENUM+"; the view's own goroutines run under a controlled scheduler","Every tree in the bounds, every single missing or foreign node, every seek/read pair. Entries() is called once per view, as the interface intends.")
c("C20","exploration",ENUM,"Every value of every field over boundary sets, every operation sequence on FSNode to the bound, and every byte string to a length bound plus all single mutations of valid encodings, against an independent encoder and tolerant decoder.")
c("C21","fault_enumeration","exhaustive fault enumeration (source reader and DAG service, every call) over all import configurations in the bounds, on the real importers","Every read of the source and every Add fails in turn; short reads in every pattern. The size splitter of go-ipfs-chunker takes io.ErrUnexpectedEOF for the end, which is outside.")
c("C23","exploration","exhaustive enumeration of single (thorough: also double) mutations of small DAGs, each run through every public entry point of the real code under a controlled scheduler with step, fetch and allocation limits","Mutations are drawn from fixed boundary sets per field, link and block. Panics inside go-merkledag's own decoding and its negative Tsize panic are third-party and kept out of the inputs.")
c("C24","exploration",ENUM,"Every chunking to the bound for both layouts, copying and not.")
exec(open(os.path.join(here,"manifest_more.py")).read()) if os.path.exists(os.path.join(here,"manifest_more.py")) else None
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
m=dict(version=1,setup_cmd="./setup.sh",
 checks=[dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=C[i][1],level=C[i][0],level_note=C[i][2]) for i in ids if i in C],
 not_applicable=[dict(property=i,reason="Check not built yet.") for i in ids if i not in C],
 notes="One Go program (mc/) holds the explorer, the closed environment, the reference implementations and all harnesses; run.sh rebuilds it against /repo's working tree for every check. No hooks in /repo are needed.")
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"claimed",len(m["not_applicable"]),"not")
