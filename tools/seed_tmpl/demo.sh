#!/bin/bash
# exit 0: the behaviour is right. Everything is written in a scratch directory, removed at the end.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/gsdemo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cd /repo || exit 2
if [ -f "$here/gsdrv.cpp" ]; then
  objs=""
  for o in BGPQuery BasicQuery Bstr CSR CompressFileUtil DFSPlan DPBTopKUtil Database DynamicTrie EvalMultitypeValue Executor FilterPlan GeneralEvaluation GraphLock IDList IDTriple INIParser IPBlackList IPWhiteList ISArray ISBlockManager ISEntry IVArray IVBlockManager IVEntry Join KVstore Latch Operation Optimizer OrderedList OrderedVector PathQueryHandler PlanGenerator PlanTree Pool QueryCache QueryParser QueryTree RDFParser ResultSet SIHeap SIIntlNode SILeafNode SINode SIStorage SITree SPARQLLexer SPARQLParser SPARQLquery Server Slog Socket SpinLock Stream StringIndex TableOperator TempResult TopKSearchPlan TopKUtil Transaction Trie TrieNode Triple TurtleParser Txn_manager Util VList Varset Version WebUrl; do objs="$objs .objs/$o.o"; done
  g++ -std=c++11 -O1 -w -fopenmp -rdynamic -I/repo/_build/shim/inc -I./tools/antlr4-cpp-runtime-4/runtime/src -I./tools/log4cplus/include \
    -I./tools/workflow/_include -I./tools/zlib-1.3/include -I. "$here/gsdrv.cpp" $objs -o "$W/gsdrv" \
    -L./lib -ljemalloc -lreadline -lantlr4-runtime -lgcov -lboost_thread -lboost_system -lboost_regex -lpthread -lcurl -llog4cplus -lz -lminizip -ldl \
    > "$W/cc.log" 2>&1 || { tail -20 "$W/cc.log"; exit 2; }
fi
mkdir -p "$W/run"; cd "$W/run" || exit 2
for f in init.conf conf.ini backup.json ipAllow.config ipDeny.config slog.properties slog.stdout.properties; do cp "/repo/$f" .; done
mkdir logs backups .tmp .debug lib
timeout 280 python3 "$here/demo.py" "$W/gsdrv"
