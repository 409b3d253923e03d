#!/usr/bin/env python3
# Regenerates the "fixed:" section of KNOWN_FINDINGS.md from /repo's fix commits; the hand-written part above the marker is kept.
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = [("P01", ["Array.h", "DynArray.h", "CompactArray.h", "Stack.h"]), ("P02", ["ArrayCircular.h", "Queue.h", "RandomQueue.h"]), ("P03", ["ArraySort.h", "Map.h"]), ("P04", ["BinaryHeap.h", "PriorityQueue.h"]),
  ("P05", ["AVLTree.h", "AATree.h", "TRBtree.h"]), ("P06", ["Hash.h"]), ("P07", ["LinkedList.h", "LLBase.h", "LinkedArray.h"]), ("P08", ["Trie.h", "StringTable.h"]), ("P09", ["DisjointSet.h"]), ("P10", ["Graph.h"]), ("P11", ["KDTree.h"]),
  ("P12", ["GreedyAlloc.h", "CacheAlloc.h", "BlockAlloc.h", "GreedyBlockAlloc.h", "Alloc.h"]), ("P13", ["LocklessQueue.h", "lockless.h"]), ("P14", ["RingAlloc.h", "BlockAllocMT.h"]), ("P15", ["RWLock.h", "ThreadPool.h", "Thread.h"]), ("P16", ["JSON.h", "Serializer.h"]), ("P17", ["UBJSON.h", "UBJSON.cpp"]), ("P18", ["XML.h", "XML.cpp"]), ("P19", ["TOML.h"]),
  ("P20", ["INIParser.c", "INIentry.cpp", "INIsection.cpp", "INIstorage.cpp", "INIentry.h", "INIsection.h", "INIstorage.h", "INIparse.h"]), ("P21", ["ConvertUTF.c", "utf_conv.h"]), ("P22", ["Str.h", "bss_util_c.c", "bss_util_c.h"]), ("P23", ["bss_util.h"]), ("P24", ["Rational.h", "FixedPt.h", "Dual.h"]), ("P25", ["vector.h", "sseVec.h"]), ("P26", ["Geometry.h", "Collision.h"]), ("P27", ["algo.h"]), ("P28", ["AliasTable.h", "XorshiftEngine.h"]), ("P29", ["Variant.h", "SmartPtr.h", "RefCounter.h", "Delegate.h"]), ("P30", ["Animation.h", "Scheduler.h", "HighPrecisionTimer.cpp"]), ("P31", ["stream.h", "BitStream.h", "BitField.h"]), ("P32", ["Logger.h", "Logger.cpp", "profiler.cpp", "bss_util.cpp"])]
OVERRIDE = {}
try: exec(open(V + "/meta/override.py").read())
except FileNotFoundError: pass
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H\t%s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"): continue
    f = [os.path.basename(x) for x in subprocess.run(["git", "-C", "/repo", "show", "--name-only", "--format=", h], capture_output=True, text=True).stdout.split()]
    p = next((v for k, v in OVERRIDE.items() if s[5:].startswith(k)), None) or next((p for p, fs in BY if any(x in fs for x in f)), "?")
    out.append(f"fixed: property={p} {h[:10]} {s[5:]}")
K = V + "/KNOWN_FINDINGS.md"; M = "<!-- fixed entries below are generated by meta/findings.py -->"
head = open(K).read().split(M)[0] if os.path.exists(K) else "# Known findings\n\nNo open findings: every genuine defect found so far was repaired.\n\n"
open(K, "w").write(head + M + "\n" + "\n".join(out) + "\n")
