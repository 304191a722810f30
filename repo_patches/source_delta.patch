From 43d550e8a815e939e49cbfa3f650e035aa8ead31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 001/149] verification hook: small RDF parser groups under
 GSTORE_VERIF

---
 Parser/RDFParser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Parser/RDFParser.h b/Parser/RDFParser.h
index 92799b4..6c4cfd9 100644
--- a/Parser/RDFParser.h
+++ b/Parser/RDFParser.h
@@ -25,7 +25,12 @@ private:
     TurtleParser _TurtleParser;
 
 public:
+#ifdef GSTORE_VERIF
+    // verification builds only: small groups, so that small inputs already span several of them
+    static const int TRIPLE_NUM_PER_GROUP = 64;
+#else
     static const int TRIPLE_NUM_PER_GROUP = 10 * 1000 * 1000;
+#endif
 
     RDFParser();
     RDFParser(ifstream& _fin);
-- 
2.43.0


From 50f2c71af0c99a488951f11b1bd8a17f31c61d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 002/149] fix: evaluate triple patterns without variables
 inside a basic graph pattern

A pattern whose subject, predicate and object are all constants was handed to
the planner as a basic graph pattern with no variable (the process ended with
exit(-1) or a crash), or silently skipped. It is now an existence test.
---
 Query/GeneralEvaluation.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 8405126..68469c7 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -523,7 +523,6 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						if (group_pattern.sub_group_pattern[j].type == GroupPattern::SubGroupPattern::Pattern_type \
 							&& !group_pattern.sub_group_pattern[j].pattern.kleene)
 						{
-							if (!group_pattern.sub_group_pattern[j].pattern.varset.empty())
 							{
 								if (group_pattern.getRootPatternBlockID(j) == j)		//root node, coming from mergePatternBlockID
 								{
@@ -622,7 +621,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						for (size_t k = 0; k < encode_varset[j].size(); k++)
 							p2id[k] = bgp_query_vec[j]->get_var_id_by_name(Varset(encode_varset[j]).vars[k]);
 						// bgp_query_vec[j]->print(kvstore);
-						if (!encode_constant_exist[j])
+						if (!encode_constant_exist[j] || encode_varset[j].empty())
 							continue;	// If any constant in this BGP does not exist, do not need to DoQuery
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[j],query_info));
 					}
@@ -645,7 +644,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						#ifndef TEST_BGPQUERY
 						vector<unsigned*> &basicquery_result = sparql_query.getBasicQuery(j).getResultList();
 						#else
+						if (varnum > 0)
 						copyBgpResult2TempResult(bgp_query_vec[j], varnum, temp->results[0]);
+						else if (encode_constant_exist[j] && BGPQuery::CheckConstBGPExist(bgp_query_vec[j]->get_triple_vt(), kvstore))
+							temp->results[0].result.emplace_back();	// triples without variables: one empty solution, or none
 						#endif
 
 						if (this->query_cache != NULL)
@@ -924,7 +926,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						for (size_t k = 0; k < encode_varset[l].size(); k++)
 							p2id[k] = bgp_query_vec[l]->get_var_id_by_name(Varset(encode_varset[l]).vars[k]);
 						// bgp_query_vec[l]->print(kvstore);
-						if (!encode_constant_exist[l])
+						if (!encode_constant_exist[l] || encode_varset[l].empty())
 							continue;
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[l],query_info));
 					}
@@ -947,7 +949,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						#ifndef TEST_BGPQUERY
 						vector<unsigned*> &basicquery_result = sparql_query.getBasicQuery(l).getResultList();
 						#else
+						if (varnum > 0)
 						copyBgpResult2TempResult(bgp_query_vec[l], varnum, temp->results[0]);
+						else if (encode_constant_exist[l] && BGPQuery::CheckConstBGPExist(bgp_query_vec[l]->get_triple_vt(), kvstore))
+							temp->results[0].result.emplace_back();	// triples without variables: one empty solution, or none
 						#endif
 						
 						// cout << "Use count = " << bgp_query_vec[l].use_count() << endl;
-- 
2.43.0


From e2bc280bcf3e33531e2763bc718f534a42d7d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 003/149] fix: keep one solution per triple when only the
 predicate of ?s ?p <o> or <s> ?p ?o is selected

---
 Database/PlanGenerator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Database/PlanGenerator.cpp b/Database/PlanGenerator.cpp
index 95888fe..9a3c554 100644
--- a/Database/PlanGenerator.cpp
+++ b/Database/PlanGenerator.cpp
@@ -60,7 +60,8 @@ JoinMethod PlanGenerator::GetJoinStrategy(bool s_is_var, bool p_is_var, bool o_i
 				return JoinMethod::s2o;
 			else{
 				if(!bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
-					return JoinMethod::s2p;
+					// the predicate list of a node holds each predicate once, whatever the number of its triples
+					return bgpquery->distinct_query ? JoinMethod::s2p : JoinMethod::s2po;
 				else return JoinMethod::s2po;
 			}
 		}
@@ -69,7 +70,8 @@ JoinMethod PlanGenerator::GetJoinStrategy(bool s_is_var, bool p_is_var, bool o_i
 				return JoinMethod::o2s;
 			else{
 				if(!bgpquery->get_vardescrip_by_id(bgpquery->so_var_id[0])->selected_)
-					return JoinMethod::o2p;
+					// the predicate list of a node holds each predicate once, whatever the number of its triples
+					return bgpquery->distinct_query ? JoinMethod::o2p : JoinMethod::o2ps;
 				else return JoinMethod::o2ps;
 			}
 		}
-- 
2.43.0


From 183e2ad7b495f13cbac2cfff7822c5587a25d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 004/149] fix: keep the multiplicity of a satellite variable
 matched through a predicate variable

---
 Database/PlanTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 6e7c4c0..3f61133 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -542,7 +542,7 @@ void PlanTree::AddSatelliteNode(BGPQuery *bgpquery, unsigned int satellite_node_
 			new_join_node->left_node = root_node;
 			root_node = new_join_node;
 		} else{
-            if (!save) {
+            if (!save && bgpquery->distinct_query) {	// otherwise one solution per triple, not per predicate
                 auto join_a_node_edge_info = make_shared<vector<EdgeInfo>>();
                 auto join_a_node_edge_const_info = make_shared<vector<EdgeConstantInfo>>();
 
-- 
2.43.0


From 7432f1992db9ac9b9cd0595d8842a76ae2ff0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 005/149] fix: expand prefixed predicates and 'a' in
 INSERT/DELETE templates

---
 Parser/QueryParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 22609ff..2dc5fca 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1529,6 +1529,9 @@ antlrcpp::Any QueryParser::visitTriplesSameSubject(SPARQLParser::TriplesSameSubj
 	for (int i = 0; i < numChild; i++)
 	{
 		predicate = propertyListNotEmpty->verb(i)->getText();
+		if (predicate == "a")
+			predicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
+		replacePrefix(predicate);
 		auto objectList = propertyListNotEmpty->objectList(i);
 		for (auto object_ptr : objectList->object())
 		{
-- 
2.43.0


From ea0a13b35bc1e70e4d4f3717cd68ede901f58894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 006/149] fix: accept ^^ inside the lexical form of a literal
 in a query

---
 Parser/QueryParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 2dc5fca..3571287 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1652,9 +1652,10 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
 {
 	string baseText = ctx->getText(), suffix, val;
-	size_t sufIdx = baseText.find("^^");
+	size_t sufIdx = baseText.rfind("\"^^");	// "^^" may also occur inside the lexical form
 	if (baseText.empty() || baseText[0] != '"' || sufIdx == string::npos)
 		return baseText;
+	sufIdx++;
 	suffix = baseText.substr(sufIdx + 2);
 	val = baseText.substr(1, sufIdx - 2);
 	replacePrefix(suffix);
-- 
2.43.0


From ff8bd508e7632f971fc11494eba7ca7cb81a11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 007/149] fix: free the node of a removed self-loop triple only
 once

---
 Database/Database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 92064fc..2898bec 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3442,7 +3442,7 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		if (is_obj_entity)
 		{
 			obj_degree = this->kvstore->getEntityDegree(_obj_id);
-			if (obj_degree == 0)
+			if (obj_degree == 0 && _obj_id != _sub_id)	// a self-loop's node was freed above
 			{
 				this->kvstore->subEntityByID(_obj_id);
 				this->kvstore->subIDByEntity(_triple.object);
-- 
2.43.0


From ee69c8292a176eb3a6d08b4641d02e71702e94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 008/149] fix: DELETE {} INSERT {} WHERE {} removes its delete
 template instead of inserting it

---
 Database/Database.cpp  | 13 ++++++++++++-
 Parser/QueryParser.cpp |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 2898bec..03aedc9 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1897,6 +1897,12 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			general_evaluation.getQueryTree().setProjectionAsterisk();
 			general_evaluation.doQuery();
 
+			// instantiate both templates before removing anything, a removal may free the names of the solutions
+			TripleWithObjType *insert_triple = NULL;
+			TYPE_TRIPLE_NUM insert_triple_num = 0;
+			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
+				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getInsertPatterns(), insert_triple, insert_triple_num);
+
 			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Delete_Where || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Delete_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
 			{
 				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getDeletePatterns(), update_triple, update_triple_num);
@@ -1906,7 +1912,12 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				//}
 				success_num = remove(update_triple, update_triple_num, false, txn);
 			}
-			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Clause || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
+			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Modify_Clause)
+			{
+				success_num += insert(insert_triple, insert_triple_num, false, txn);
+				delete[] insert_triple;
+			}
+			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Clause)
 			{
 				general_evaluation.prepareUpdateTriple(general_evaluation.getQueryTree().getInsertPatterns(), update_triple, update_triple_num);
 				// for(int i = 0; i < update_triple_num; i++)
diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 3571287..444c8a0 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1476,9 +1476,12 @@ antlrcpp::Any QueryParser::visitModify(SPARQLParser::ModifyContext *ctx)
 
 	if (ctx->deleteClause() && ctx->insertClause())
 	{
-		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
+		// the update type tells visitTriplesSameSubject which template it is in
+		query_tree_ptr->setUpdateType(QueryTree::Delete_Clause);
 		visit(ctx->deleteClause());
+		query_tree_ptr->setUpdateType(QueryTree::Insert_Clause);
 		visit(ctx->insertClause());
+		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
 	}
 	else if (ctx->deleteClause())
 	{
-- 
2.43.0


From ce36f832bd11f66bc568966cab6f114390fad7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 009/149] fix: FILTER and BIND over a predicate variable read
 the predicate, not the entity of the same ID

---
 Query/GeneralEvaluation.cpp | 16 ++++++++--------
 Query/TempResult.cpp        |  7 +++++++
 Query/TempResult.h          |  2 ++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 68469c7..8dd2192 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1045,7 +1045,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						if (rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].type == GroupPattern::SubGroupPattern::Bind_type)
 						{
 							sub_result->doBind(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].bind, kvstore, \
-								rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
+								query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 						}
 
 					// Process FILTER (with var in minimal_varset constraint) //
@@ -1060,10 +1060,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, query_tree.getLimit());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
+										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 							}
 
 					// Process OPTIONAL //
@@ -1113,10 +1113,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, query_tree.getLimit());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
+										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 								printf("IN SECOND doFilter\n");
 							}
 						}
@@ -1188,15 +1188,15 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		{
             // If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 			if (dep == 0 && query_tree.getOrderByVarset().empty() && i == group_pattern.sub_group_pattern.size() - 1)
-				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, query_tree.getLimit());
 			else
-				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset);
+				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 			result->initial = false;
 		}
 		else if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Bind_type)
 		{
 			result->doBind(group_pattern.sub_group_pattern[i].bind, kvstore, \
-				group_pattern.group_pattern_subject_object_maximal_varset);
+				query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 		}
 		else if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Subquery_type)
 		{ 
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 28be3c5..0710ef1 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -718,6 +718,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			if (pos < id_cols)
 			{
 				int id = row.id[pos];
+                if (this->entity_literal_varset != NULL && !this->entity_literal_varset->findVar(root.val))
+                    x.term_value = kvstore->getPredicateByID(id);	// predicates have IDs of their own
+                else
                 x.term_value = kvstore->getStringByID(id);
 			}
 			else
@@ -1237,6 +1240,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 void TempResult::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &entity_literal_varset, unsigned limit_number) {
     unsigned original_size = this->result.size();
     unsigned delete_num = 0, save_num = 0;
+    this->entity_literal_varset = &entity_literal_varset;
 
     Varset this_varset = this->getAllVarset();
     int this_id_cols = this->id_varset.getVarsetSize();
@@ -1254,17 +1258,20 @@ void TempResult::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &
 
     this->result.erase(this->result.begin()+(save_num), this->result.end());
     this->result.shrink_to_fit();
+    this->entity_literal_varset = NULL;
 }
 void TempResult::doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset &entity_literal_varset)
 {
 	Varset this_varset = this->getAllVarset();
 	int this_id_cols = this->id_varset.getVarsetSize();
 	this->str_varset.addVar(bind.var);
+	this->entity_literal_varset = &entity_literal_varset;
 	for (int i = 0; i < (int)this->result.size(); i++)
 	{
 		EvalMultitypeValue ret_femv = doComp(bind.bindExpr, this->result[i], this_id_cols, kvstore, this_varset);
 		this->result[i].str.push_back(ret_femv.getRep());
 	}
+	this->entity_literal_varset = NULL;
 	return;
 }
 
diff --git a/Query/TempResult.h b/Query/TempResult.h
index 78542a2..65f24a8 100644
--- a/Query/TempResult.h
+++ b/Query/TempResult.h
@@ -57,6 +57,8 @@ class TempResult
         void doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &entity_literal_varset, unsigned limit_num = std::numeric_limits<unsigned>::max());
 		void doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset &entity_literal_varset);
 
+		// while doFilter or doBind runs: the variables that stand for entities or literals; any other ID is a predicate's
+		const Varset *entity_literal_varset = NULL;
 		EvalMultitypeValue doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVstore *kvstore, Varset &this_varset);
 
 		void print(int no=-1);
-- 
2.43.0


From eac739f67c3ffa7521a3f2749a25370adf97579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 010/149] fix: batch removal of unknown triples no longer
 removes the triple with IDs 0,0,0

---
 Database/Database.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 03aedc9..ce23add 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4091,14 +4091,19 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 			continue;
 		}
 
-		id_tuples[i].subid = _sub_id;
-		id_tuples[i].preid = _pre_id;
-		id_tuples[i].objid = _obj_id;
+		id_tuples[valid_num].subid = _sub_id;
+		id_tuples[valid_num].preid = _pre_id;
+		id_tuples[valid_num].objid = _obj_id;
+		valid_num++;
 		sub_ids.insert(_sub_id);
 		pre_ids.insert(_pre_id);
 		obj_ids.insert(_obj_id);
 	}
 
+	if (valid_num == 0)
+		return 0;
+	id_tuples.resize(valid_num);	// the triples whose terms are all known
+
 	sort(id_tuples.begin(), id_tuples.end(), Util::spo_cmp_idtuple);
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
 	id_tuples.erase(new_end, id_tuples.end());
-- 
2.43.0


From e4853ecdd2869a6a58b53aaa9f216d10e8e288a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 011/149] fix: a table join joins on a predicate variable only
 if both sides bind it

---
 Database/PlanTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 3f61133..0f287b3 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -474,7 +474,7 @@ PlanTree::PlanTree(PlanTree *left_plan, PlanTree *right_plan, BGPQuery *bgpquery
 			already_joined_pre_var.emplace_back(x);
 
 	for(auto x : left_plan->already_joined_pre_var){
-		if(find(right_plan->already_joined_pre_var.begin(), right_plan->already_joined_pre_var.end(), x) != right_plan->already_so_var.end()){
+		if(find(right_plan->already_joined_pre_var.begin(), right_plan->already_joined_pre_var.end(), x) != right_plan->already_joined_pre_var.end()){
 			public_variables->emplace_back(x);
 		}
 	}
-- 
2.43.0


From eccf7cc81d82204d156890bd121d4c10b5a05d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 012/149] fix: planning a query over an emptied database
 divides by zero or samples forever

---
 Database/PlanGenerator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Database/PlanGenerator.cpp b/Database/PlanGenerator.cpp
index 9a3c554..4c6f2b2 100644
--- a/Database/PlanGenerator.cpp
+++ b/Database/PlanGenerator.cpp
@@ -720,6 +720,9 @@ unsigned PlanGenerator::GetSampleFromWholeDatabase(unsigned int var_id, vector<u
 	unsigned sample_from_num = not_literal ? limitID_entity : limitID_entity + limitID_literal;
 
 
+	// an empty database has nothing to sample
+	if (sample_from_num == 0) return 0;
+
 	unsigned sample_size = GetSampleSize(sample_from_num);
 	unsigned sample_entity_size = not_literal ? sample_size : ((double )sample_size * limitID_entity / (limitID_literal + limitID_entity) + 1);
 	unsigned sample_literal_size = not_literal ? 0 : (sample_size * limitID_literal / (limitID_literal + limitID_entity) + 1);
@@ -729,7 +732,8 @@ unsigned PlanGenerator::GetSampleFromWholeDatabase(unsigned int var_id, vector<u
 
 	unsigned already_sampled_num = 0;
 	uniform_int_distribution<unsigned> dis(0, limitID_entity-1);
-	while (already_sampled_num < sample_entity_size){
+	// removed entities and literals leave unused ids behind, so the number of draws is bounded
+	for (unsigned draws = 0; already_sampled_num < sample_entity_size && draws / 16 < sample_entity_size; ++draws){
 		// unsigned index_need_insert = rand() % limitID_entity;
 		unsigned index_need_insert = dis(eng);
 		auto entity_str = kvstore->getEntityByID(index_need_insert);
@@ -742,7 +746,7 @@ unsigned PlanGenerator::GetSampleFromWholeDatabase(unsigned int var_id, vector<u
 
 	already_sampled_num = 0;
 	dis = uniform_int_distribution<unsigned>(0, limitID_literal-1);
-	while (already_sampled_num < sample_literal_size){
+	for (unsigned draws = 0; already_sampled_num < sample_literal_size && draws / 16 < sample_literal_size; ++draws){
 		// unsigned index_need_insert = rand() % limitID_literal + Util::LITERAL_FIRST_ID;
 		unsigned index_need_insert = dis(eng) + Util::LITERAL_FIRST_ID;
 		auto literal_str = kvstore->getLiteralByID(index_need_insert);
@@ -1024,7 +1028,7 @@ double PlanGenerator::NodeScore(unsigned int var_id) {
 		unsigned nei_id = var_descrip->so_edge_nei_[nei_index];
         if (find(plan_var_vec.begin(), plan_var_vec.end(), nei_id) == plan_var_vec.end()) continue;
 
-		unsigned pre_size = (var_descrip->IsIthEdgePreVar(nei_index) ? max((unsigned)triples_num/limitID_predicate, (unsigned)2) : pre2num[var_descrip->so_edge_pre_id_[nei_index]]);
+		unsigned pre_size = (var_descrip->IsIthEdgePreVar(nei_index) ? max(limitID_predicate == 0 ? 0u : (unsigned)triples_num/limitID_predicate, (unsigned)2) : pre2num[var_descrip->so_edge_pre_id_[nei_index]]);
 		node_score += PlanGenerator::PARAM_PRE / (double)(pre_size+1);
 	}
 
-- 
2.43.0


From f807e89f424c4f446b1712f38d5965f39c0d57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 013/149] fix: the edge check erases rows from the table they
 are in

---
 Database/Executor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Executor.cpp b/Database/Executor.cpp
index 1e9424f..b36fe21 100644
--- a/Database/Executor.cpp
+++ b/Database/Executor.cpp
@@ -771,7 +771,7 @@ tuple<bool,TableContentShardPtr> gstore::Executor::OneEdgeConstraintFilter(EdgeI
         result_table->push_back(*record_iterator);
     }
     if(!remain_old)
-      record_iterator = result_table->erase(record_iterator);
+      record_iterator = table_content_ptr->erase(record_iterator);
     else
       record_iterator++;
     delete [] edge_candidate_list;
-- 
2.43.0


From 36e104aa14a88df725f4d6e04fb83191def3f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 014/149] fix: keep a predicate variable shared by unconnected
 patterns until they are joined

---
 Query/GeneralEvaluation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 8dd2192..377e81b 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -826,6 +826,12 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 									basic_query.push_back(triple_pattern.sub_group_pattern[k].pattern);
 								}
 
+							//// A var that another BGP of this group also uses (a predicate) is needed to join the two ////
+							for (int k = 0; k < (int)triple_pattern.sub_group_pattern.size(); k++)
+								if (triple_pattern.sub_group_pattern[k].type == GroupPattern::SubGroupPattern::Pattern_type \
+									&& triple_pattern.getRootPatternBlockID(k) != l)
+									local_useful += triple_pattern.sub_group_pattern[k].pattern.varset;
+
 							//// Reduce useful: return result vars ////
 							if (!this->query_tree.checkProjectionAsterisk() && local_useful.hasCommonVar(occur))
 								local_useful = local_useful * occur;	// Only the common vars remain
-- 
2.43.0


From 5f904446fc0df86f1961621b5ba80283c17776b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 015/149] fix: a predicate variable shared by several edges is
 checked on each of them

---
 Database/PlanTree.cpp | 46 ++++++++++++++++++++++++++++++++-----------
 Database/PlanTree.h   |  1 +
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 0f287b3..206f47b 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -77,10 +77,13 @@ PlanTree::PlanTree(unsigned first_node, BGPQuery *bgpquery) {
 
 		}
 
+		set<unsigned> checked_pre_var;  // predicate variables joined on all their edges at once below
 		for(unsigned i = beg; i < need_join_two_nodes_edge_index.size(); ++i){
 			unsigned edge_index = var_descrip->so_edge_index_[need_join_two_nodes_edge_index[i]];
-			if(find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[edge_index]) != already_joined_pre_var.end()){
+			if(checked_pre_var.count(bgpquery->p_id_[edge_index])){
 				continue;
+			} else if(find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[edge_index]) != already_joined_pre_var.end()){
+				AddEdgeCheck(bgpquery, first_node, edge_index);
 			} else{
 				// selected_ == true or degree >= 2
 				auto pre_var_descrip = bgpquery->get_vardescrip_by_id(var_descrip->so_edge_pre_id_[need_join_two_nodes_edge_index[i]]);
@@ -102,6 +105,7 @@ PlanTree::PlanTree(unsigned first_node, BGPQuery *bgpquery) {
 				new_join_a_node->left_node = root_node;
 				root_node = new_join_a_node;
 				already_joined_pre_var.emplace_back(pre_var_descrip->id_);
+				checked_pre_var.insert(pre_var_descrip->id_);
 			}
 		}
 	}
@@ -201,10 +205,13 @@ PlanTree::PlanTree(PlanTree *last_plantree, BGPQuery *bgpquery, unsigned next_no
 			beg = 1;
 		}
 
+		set<unsigned> checked_pre_var;  // predicate variables joined on all their edges at once below
 		for(unsigned i = beg; i < need_join_two_nodes_index.size(); ++i){
 			unsigned edge_index = var_descrip->so_edge_index_[need_join_two_nodes_index[i]];
-			if(find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[edge_index]) != already_joined_pre_var.end()){
+			if(checked_pre_var.count(bgpquery->p_id_[edge_index])){
 				continue;
+			} else if(find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[edge_index]) != already_joined_pre_var.end()){
+				AddEdgeCheck(bgpquery, next_node, edge_index);
 			} else{
 				// selected_ == true or degree >= 2
 				auto pre_var_descrip = bgpquery->get_vardescrip_by_id(var_descrip->so_edge_pre_id_[need_join_two_nodes_index[i]]);
@@ -226,6 +233,7 @@ PlanTree::PlanTree(PlanTree *last_plantree, BGPQuery *bgpquery, unsigned next_no
 				new_join_a_node->left_node = root_node;
 				root_node = new_join_a_node;
 				already_joined_pre_var.emplace_back(pre_var_descrip->id_);
+				checked_pre_var.insert(pre_var_descrip->id_);
 			}
 		}
 	}
@@ -261,6 +269,21 @@ PlanTree::PlanTree(PlanTree *last_plantree, BGPQuery *bgpquery, unsigned next_no
 	}
 }
 
+// Keep only the rows that match edge edge_index, whose two nodes and predicate variable are all joined already.
+void PlanTree::AddEdgeCheck(BGPQuery *bgpquery, unsigned node_id, unsigned edge_index) {
+	auto edge_info = make_shared<vector<EdgeInfo>>();
+	auto edge_constant_info = make_shared<vector<EdgeConstantInfo>>();
+	bool is_object = !bgpquery->o_is_constant_[edge_index] && bgpquery->o_id_[edge_index] == node_id;
+	edge_info->emplace_back(bgpquery->s_id_[edge_index], bgpquery->p_id_[edge_index], bgpquery->o_id_[edge_index],
+							is_object ? JoinMethod::sp2o : JoinMethod::po2s);
+	edge_constant_info->emplace_back(bgpquery->s_is_constant_[edge_index], bgpquery->p_is_constant_[edge_index], bgpquery->o_is_constant_[edge_index]);
+	auto edge_check = make_shared<AffectOneNode>(node_id, edge_info, edge_constant_info);
+	Tree_node *edge_check_node = new Tree_node(make_shared<StepOperation>(StepOperation::StepOpType::Check, StepOperation::OpRangeType::OneNode,
+																		  edge_check, nullptr, nullptr, bgpquery->distinct_query));
+	edge_check_node->left_node = root_node;
+	root_node = edge_check_node;
+}
+
 // only used when consider_p2so_optimization
 void PlanTree::add_prevar_neicon(unsigned node_id, BGPQuery *bgpquery, bool is_first_node){
 	auto var_descrip = bgpquery->get_vardescrip_by_id(node_id);
@@ -300,16 +323,7 @@ void PlanTree::add_prevar_neicon(unsigned node_id, BGPQuery *bgpquery, bool is_f
 		for (unsigned i = 0; i < need_join_pre_var_edge_index.size(); ++i) {
 			unsigned edge_index = var_descrip->so_edge_index_[need_join_pre_var_edge_index[i]];
 			if (find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[edge_index]) != already_joined_pre_var.end()) {
-				auto edge_info = make_shared<vector<EdgeInfo>>();
-				auto edge_constant_info = make_shared<vector<EdgeConstantInfo>>();
-				edge_info->emplace_back(bgpquery->s_id_[edge_index], bgpquery->p_id_[edge_index], bgpquery->o_id_[edge_index],
-										var_descrip->so_edge_type_[need_check_pre_var_edge_index[i]] == Util::EDGE_IN ? JoinMethod::sp2o : JoinMethod::po2s);
-				edge_constant_info->emplace_back(bgpquery->s_is_constant_[edge_index], bgpquery->p_is_constant_[edge_index], bgpquery->o_is_constant_[edge_index]);
-				auto edge_check = make_shared<AffectOneNode>(node_id, edge_info, edge_constant_info);
-				Tree_node* edge_check_node = new Tree_node(make_shared<StepOperation>(StepOperation::StepOpType::Check, StepOperation::OpRangeType::OneNode,
-																					  edge_check, nullptr, nullptr, bgpquery->distinct_query));
-				edge_check_node->left_node = root_node;
-				root_node = edge_check_node;
+				AddEdgeCheck(bgpquery, node_id, edge_index);
 			} else {
 				auto pre_var_descrip = bgpquery->get_vardescrip_by_id(var_descrip->so_edge_pre_id_[need_join_pre_var_edge_index[i]]);
 				shared_ptr<vector<EdgeInfo>> edges_info = make_shared<vector<EdgeInfo>>();
@@ -383,6 +397,10 @@ PlanTree::PlanTree(unsigned node_1_id, unsigned node_2_id, BGPQuery *bgpquery){
 
 		for (unsigned i = 0; i < linked_edge_pre_var_vec.size(); ++i){
 			unsigned join_a_node_edge_index = var1_descrip->so_edge_index_[linked_edge_pre_var_vec[i]];
+			if (find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[join_a_node_edge_index]) != already_joined_pre_var.end()) {
+				AddEdgeCheck(bgpquery, node_1_id, join_a_node_edge_index);
+				continue;
+			}
 
 			auto pre_var_descrip = bgpquery->get_vardescrip_by_id(bgpquery->p_id_[join_a_node_edge_index]);
 
@@ -422,6 +440,10 @@ PlanTree::PlanTree(unsigned node_1_id, unsigned node_2_id, BGPQuery *bgpquery){
 
 		for(unsigned i = 1; i < linked_edge_pre_var_vec.size(); ++i){
 			unsigned join_a_node_edge_index = var1_descrip->so_edge_index_[linked_edge_pre_var_vec[i]];
+			if (find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[join_a_node_edge_index]) != already_joined_pre_var.end()) {
+				AddEdgeCheck(bgpquery, node_1_id, join_a_node_edge_index);
+				continue;
+			}
 			auto pre_var_descrip = bgpquery->get_vardescrip_by_id(bgpquery->p_id_[join_a_node_edge_index]);
 
 			shared_ptr<vector<EdgeInfo>> edges_info = make_shared<vector<EdgeInfo>>();
diff --git a/Database/PlanTree.h b/Database/PlanTree.h
index b94477c..23aa6c2 100644
--- a/Database/PlanTree.h
+++ b/Database/PlanTree.h
@@ -76,6 +76,7 @@ class PlanTree {
     PlanTree(PlanTree *last_plantree, BGPQuery *bgpquery, unsigned next_node, bool used_in_heuristic_plan = false);
 
 	// Functions for p2so optimization
+    void AddEdgeCheck(BGPQuery *bgpquery, unsigned node_id, unsigned edge_index);
 	void add_prevar_neicon(unsigned node_id, BGPQuery *bgpquery, bool is_first_node);
     PlanTree(unsigned node_1_id, unsigned node_2_id, BGPQuery *bgpquery);
 
-- 
2.43.0


From 505cb3df0f03d9b56c974103a041c2307dac0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 016/149] fix: an unselected predicate variable keeps one
 solution per matching triple

---
 Database/PlanTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 206f47b..2bb0359 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -40,7 +40,7 @@ PlanTree::PlanTree(unsigned first_node, BGPQuery *bgpquery) {
 			auto pre_var_descrip = bgpquery->get_vardescrip_by_id(var_descrip->so_edge_pre_id_[i_th_edge]);
 
 			JoinMethod join_method;
-			if (!pre_var_descrip->selected_ && pre_var_descrip->degree_ == 1) {
+			if (!pre_var_descrip->selected_ && pre_var_descrip->degree_ == 1 && bgpquery->distinct_query) {
 				if (var_descrip->so_edge_type_[i_th_edge] == Util::EDGE_IN)
 					join_method = JoinMethod::s2o;
 				else
@@ -171,7 +171,7 @@ PlanTree::PlanTree(PlanTree *last_plantree, BGPQuery *bgpquery, unsigned next_no
 
 			// if ?p degree_one, not select, only need s2o, consider distinct or not
 			auto pre_descrip = bgpquery->get_vardescrip_by_id(var_descrip->so_edge_pre_id_[i]);
-			if(pre_descrip->degree_ == 1 and !pre_descrip->selected_){
+			if(pre_descrip->degree_ == 1 and !pre_descrip->selected_ and bgpquery->distinct_query){
 				join_pre_var_index_vec.emplace_back(i);
 			} else{
 				need_join_two_nodes_index.emplace_back(i);
-- 
2.43.0


From 76ce2f4911af452478084c6d1419997681b71194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 017/149] fix: OPTIONAL keeps a solution when the optional part
 shares no variable and has no match

---
 Query/TempResult.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 0710ef1..4d4362b 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -538,9 +538,8 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 	{
 		this->doJoin(x, ra);
 
-		binding.resize((int)this->result.size());
-		for (int i = 0; i < (int)this->result.size(); i++)
-			binding[i] = true;	// val in resize is only for new insertions
+		if (!x.result.empty())
+			binding.assign(this->result.size(), true);
 	}
 	else if (!x.result.empty())
 	{
-- 
2.43.0


From 06b3beeeaf979219db886b406da98d0fe7946d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 018/149] fix: MINUS with an empty right side keeps every
 solution once

---
 Query/TempResult.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 4d4362b..da46747 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -618,8 +618,11 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 void TempResult::doMinus(TempResult &x, TempResult &r)
 {
 	if (x.result.empty())
-		r = *this;
-	
+	{
+		this->doUnion(r);
+		return;
+	}
+
 	int this_id_cols = this->id_varset.getVarsetSize();
 
 	int r_id_cols = r.id_varset.getVarsetSize();
-- 
2.43.0


From 18b582c7a28978db11a874ca8abd077faf626c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 019/149] fix: a cross product copies its string columns
 instead of moving them into the first row

---
 Query/TempResult.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index da46747..d433b2b 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -349,13 +349,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 						vector<string> &v = r.result[curr].str;
 
 						for (int k = 0; k < this_str_cols; k++)
-							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
@@ -369,13 +366,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 						vector<string> &v = r.result[curr].str;
 
 						for (int k = 0; k < this_str_cols; k++)
-							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
-- 
2.43.0


From 040b3cbb652eb36a2a2ce196fc7eb6ef8d9d21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 020/149] fix: projection keeps solutions that bind none of the
 selected variables

---
 Query/TempResult.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index d433b2b..a2498eb 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1560,7 +1560,6 @@ void TempResultSet::doProjection1(Varset &proj, TempResultSet &r, StringIndex *s
 	int r_str_cols = r_str_varset.getVarsetSize();
 
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(r_id_varset) || this->results[i].str_varset.hasCommonVar(r_str_varset))
 		{
 			vector<int> r2this_id_pos = r_id_varset.mapTo(this->results[i].id_varset);
 			vector<int> r2this_str_pos = r_str_varset.mapTo(this->results[i].str_varset);
-- 
2.43.0


From 76f633465486de69e875da431700c1fb9f217202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 021/149] fix: FILTER in a group without patterns reads a
 result that does not exist

---
 Query/TempResult.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index a2498eb..c236845 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1502,7 +1502,12 @@ void TempResultSet::doMinus(TempResultSet &x, TempResultSet &r, StringIndex *str
 }
 
 void TempResultSet::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &entity_literal_varset, unsigned limit_num) {
-    unsigned before_size = results[0].result.size();
+    // A FILTER that comes before anything else applies to the one solution that binds nothing
+    if (this->results.empty() && this->initial) {
+        this->results.push_back(TempResult());
+        this->results.back().result.push_back(TempResult::ResultPair());
+    }
+    unsigned before_size = this->results.empty() ? 0 : results[0].result.size();
     long tv_begin = Util::get_cur_time();
 
     for (int i = 0; i < (int) this->results.size(); i++) {
@@ -1510,7 +1515,7 @@ void TempResultSet::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varse
     }
 
     long tv_end = Util::get_cur_time();
-    unsigned after_size = results[0].result.size();
+    unsigned after_size = this->results.empty() ? 0 : results[0].result.size();
     printf("after doFilter, used %ld ms. ", tv_end - tv_begin);
     printf("before filter size %d, after filter size %d.\n", before_size, after_size);
 }
-- 
2.43.0


From 3a17601be25b3a4747dee399e0ca7b2ca22941cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 022/149] fix: a leading OPTIONAL without a match gives one
 empty solution

---
 Query/TempResult.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index c236845..4625cba 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1396,9 +1396,10 @@ void TempResultSet::doOptional(TempResultSet &x, TempResultSet &r, StringIndex *
 	// if (this->results.empty() || x.results.empty())
 	if (this->results.empty() && this->initial)
 	{
+		// Nothing before it: the left side is the one solution that binds nothing
 		this->initial = false;
-		this->doUnion(x, r);
-		return;
+		this->results.push_back(TempResult());
+		this->results.back().result.push_back(TempResult::ResultPair());
 	}
 
 	Varset this_str_varset, x_str_varset;
-- 
2.43.0


From 4c4092e4f595892d90d3f0bc6ee62c425ca4ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 023/149] fix: FILTER applies to its whole group, not only to
 the part written before it

---
 Parser/QueryParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 444c8a0..3c80b48 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -949,6 +949,10 @@ antlrcpp::Any QueryParser::visitGroupGraphPatternSub(SPARQLParser::GroupGraphPat
 			visitTriplesBlock(graphPatternTriplesBlock->triplesBlock(), group_pattern);
 	}
 
+	// A FILTER applies to the whole group, wherever in it it is written
+	stable_partition(group_pattern.sub_group_pattern.begin(), group_pattern.sub_group_pattern.end(), \
+		[](const GroupPattern::SubGroupPattern &sub) { return sub.type != GroupPattern::SubGroupPattern::Filter_type; });
+
 	return antlrcpp::Any();
 }
 
-- 
2.43.0


From 51b1ca2892da9a355a247bf125db7c442a714bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 024/149] fix: LIMIT is applied at the last FILTER only when
 each solution left is one row of the answer

---
 Query/GeneralEvaluation.cpp | 30 ++++++++++++++++++++++++------
 Query/GeneralEvaluation.h   |  1 +
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 377e81b..a1fdb86 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -352,6 +352,21 @@ void GeneralEvaluation::getAllPattern(const GroupPattern &group_pattern, vector<
 	}
 }
 
+/**
+	How many solutions the last FILTER of the query has to keep: the ones skipped by OFFSET 
+	and the ones within LIMIT, if each solution is one row of the answer; all of them otherwise.
+
+	@return the number of solutions to keep, -1 for all.
+*/
+unsigned GeneralEvaluation::getFilterLimit()
+{
+	if (query_tree.getLimit() == -1 || query_tree.getQueryForm() != QueryTree::Select_Query
+		|| query_tree.getProjectionModifier() == QueryTree::Modifier_Distinct || !query_tree.getOrderVarVector().empty()
+		|| !query_tree.getGroupByVarset().empty() || query_tree.checkAtLeastOneAggregateFunction())
+		return -1;
+	return (unsigned)query_tree.getLimit() + (unsigned)query_tree.getOffset();
+}
+
 TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 {
 	// If ASK query, and only one BGP, check if every triple consists of all constants
@@ -1055,6 +1070,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						}
 
 					// Process FILTER (with var in minimal_varset constraint) //
+					bool filter_pending = false;	// a FILTER that has to wait for the OPTIONALs
 					for (int l = 0; l < (int)(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size()); l++)
 						if (rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].type == GroupPattern::SubGroupPattern::Filter_type)
 							if (!rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter.done && \
@@ -1064,13 +1080,15 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 							{
 								rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter.done = true;
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
-								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
+								if (dep == 0 && !filter_pending && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, getFilterLimit());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 							}
+							else
+								filter_pending = true;
 
 					// Process OPTIONAL //
 					if (sub_result->results.empty() || !sub_result->results[0].result.empty())
@@ -1117,9 +1135,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 							{
 								rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter.done = true;
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
-								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
+								if (dep == 0 && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, getFilterLimit());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
@@ -1193,8 +1211,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		else if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Filter_type)
 		{
             // If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
-			if (dep == 0 && query_tree.getOrderByVarset().empty() && i == group_pattern.sub_group_pattern.size() - 1)
-				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+			if (dep == 0 && i == group_pattern.sub_group_pattern.size() - 1)
+				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset, getFilterLimit());
 			else
 				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 			result->initial = false;
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index 2523754..18aefad 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -130,6 +130,7 @@ class GeneralEvaluation
 	public:
 		bool expanseFirstOuterUnionGroupPattern(GroupPattern &group_pattern, std::deque<GroupPattern> &queue);
 
+		unsigned getFilterLimit();
 		TempResultSet* queryEvaluation(int dep);
 
 		void getFinalResult(ResultSet &ret_result);
-- 
2.43.0


From f7cda9fd6b43261d43ff5ee86cb5dde43e900639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 025/149] fix: a variable that some outer solutions leave
 unbound is not restricted to the values of the others

---
 Query/GeneralEvaluation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index a1fdb86..4652a4a 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3905,6 +3905,7 @@ void GeneralEvaluation::fillCandList(vector<shared_ptr<BGPQuery>>& bgp_query_vec
 			/// For each var in the current BGP ///
 			/// construct result_set: the candidate values of this var from the parent result in rewriting_evaluation_stack ///
 			set<unsigned> result_set;
+			bool unbound = false;	// some solutions leave the var unbound, they are compatible with any value
 
 			for (int t = 0; t < (int)last_result->results.size(); t++)
 			{
@@ -3923,11 +3924,13 @@ void GeneralEvaluation::fillCandList(vector<shared_ptr<BGPQuery>>& bgp_query_vec
 						for (int l = 0; l < (int)result.size(); l++)
 							result_set.insert(kvstore->getIDByString(result[l].str[pos]));
 					}
+					else if (!result.empty())
+						unbound = true;
 				}
 			}
 
 			/// If result_set is non-empty, set it as the current var's candidate list ///
-			if (!result_set.empty())
+			if (!unbound && !result_set.empty())
 			{
 				// vector<unsigned> result_vector;
 				IDList result_vector;
-- 
2.43.0


From 4ffea160612215e61b1c63bf8dd6a5d90565d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 026/149] fix: the candidates of a variable restrict an edge's
 matches without dropping their multiplicity

---
 Database/Executor.cpp |  4 ++--
 Query/IDList.cpp      | 20 ++++++++++++++++++++
 Query/IDList.h        |  1 +
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/Database/Executor.cpp b/Database/Executor.cpp
index b36fe21..dddfbf6 100644
--- a/Database/Executor.cpp
+++ b/Database/Executor.cpp
@@ -447,7 +447,7 @@ bool gstore::Executor::UpdateIDCache(shared_ptr<AffectOneNode> affect_one_node,
   else
   {
     auto candidate_already = candidate_list_it->second;
-    candidate_already->intersectList(candidate_generated->getList()->data(),candidate_generated->size());
+    candidate_already->joinList(*candidate_generated);
   }
   return true;
 }
@@ -1175,7 +1175,7 @@ std::shared_ptr<IDList> gstore::Executor::ExtendRecordOneNode(shared_ptr<AffectO
   if(id_caches->find(new_id)!=id_caches->end())
   {
     auto caches_ptr = (*(id_caches->find(new_id))).second;
-    record_candidate_list->intersectList(caches_ptr->getList()->data(),caches_ptr->size());
+    record_candidate_list->joinList(*caches_ptr);
   }
 
   return record_candidate_list;
diff --git a/Query/IDList.cpp b/Query/IDList.cpp
index 9588ad9..b3b61e8 100644
--- a/Query/IDList.cpp
+++ b/Query/IDList.cpp
@@ -126,6 +126,26 @@ IDList::copy(const IDList* _new_idlist)
 	this->id_list = *(_new_idlist->getList());
 }
 
+/**
+ * Join with the other list and change this IDList: an id found m times here and
+ * n times there is kept m*n times. Both lists are in ascending order.
+ * @param _id_list the other (will not change)
+ */
+void
+IDList::joinList(const IDList& _id_list)
+{
+	const vector<unsigned>& other = _id_list.id_list;
+	vector<unsigned> joined;
+	auto it = other.begin();
+	for (unsigned id : this->id_list)
+	{
+		it = lower_bound(it, other.end(), id);
+		for (auto same = it; same != other.end() && *same == id; ++same)
+			joined.push_back(id);
+	}
+	this->id_list.swap(joined);
+}
+
 /**
  * Intersect With other List and change this IDList.
  * Attention: This Method process two non-distinct list
diff --git a/Query/IDList.h b/Query/IDList.h
index 7d235ab..851259a 100644
--- a/Query/IDList.h
+++ b/Query/IDList.h
@@ -45,6 +45,7 @@ public:
     void resize(size_t size);
 	// intersect/union _id_list to this IDList, note that the two list must be ordered before using these two functions.
 	unsigned intersectList(const unsigned* _id_list, unsigned _list_len);
+	void joinList(const IDList& _id_list);
 	unsigned intersectList(const IDList&);
 	unsigned unionList(const unsigned* _id_list, unsigned _list_len, bool only_literal=false);
 	unsigned unionList(const IDList&, bool only_literal=false);
-- 
2.43.0


From 6582dcf4067ec03087c670924e48d978e81bad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 027/149] fix: BIND keeps the term of a variable or constant as
 it is and leaves its variable unbound on an error

---
 Query/TempResult.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 4625cba..2cbdbfb 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1265,7 +1265,12 @@ void TempResult::doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset
 	for (int i = 0; i < (int)this->result.size(); i++)
 	{
 		EvalMultitypeValue ret_femv = doComp(bind.bindExpr, this->result[i], this_id_cols, kvstore, this_varset);
-		this->result[i].str.push_back(ret_femv.getRep());
+		if (ret_femv.datatype == EvalMultitypeValue::xsd_boolean && ret_femv.bool_value.getValue() == 2)
+			this->result[i].str.push_back("");	// an error leaves the variable unbound
+		else if (bind.bindExpr.children.empty() && bind.bindExpr.oprt != "NOW")
+			this->result[i].str.push_back(ret_femv.term_value);	// a variable or a constant, as it is
+		else
+			this->result[i].str.push_back(ret_femv.getRep());
 	}
 	this->entity_literal_varset = NULL;
 	return;
-- 
2.43.0


From 884ceecbc4369c94ded67e2323a1f7ccd54668bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 028/149] fix: a leading MINUS has the empty solution on its
 left side

---
 Query/TempResult.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 2cbdbfb..716c16b 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1450,6 +1450,14 @@ void TempResultSet::doMinus(TempResultSet &x, TempResultSet &r, StringIndex *str
 {
 	long tv_begin = Util::get_cur_time();
 
+	if (this->results.empty() && this->initial)
+	{
+		// Nothing before it: the left side is the one solution that binds nothing
+		this->initial = false;
+		this->results.push_back(TempResult());
+		this->results.back().result.push_back(TempResult::ResultPair());
+	}
+
 	if (x.results.empty())
 	{
 		this->doUnion(x, r);
-- 
2.43.0


From 2f9709142b861b484882dfc7b176866dae51c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 029/149] fix: isIRI, isLiteral and isNumeric of an unbound
 variable are errors

---
 Query/TempResult.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 716c16b..29a9adf 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -881,6 +881,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::iri);
 
 		return ret_femv;
@@ -890,6 +892,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::literal ||
 							   x.datatype == EvalMultitypeValue::xsd_string ||
 							   x.datatype == EvalMultitypeValue::xsd_boolean ||
@@ -906,6 +910,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
 							   x.datatype == EvalMultitypeValue::xsd_float ||
-- 
2.43.0


From 201a9195dd4a8087f8c29f0d1251aaee81fe437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 030/149] fix: a cross product adds its rows to the result
 instead of replacing the ones already there

---
 Query/TempResult.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 29a9adf..aaf3f7d 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -295,12 +295,14 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 	if (common.empty())
 	{
 		// printf("Res size = %d, ", (int)this->result.size() * (int)x.result.size());
-		r.result.resize(this->result.size() * x.result.size());
+		// r may already hold the rows of other results over the same variables
+		size_t r_size = r.result.size();
+		r.result.resize(r_size + this->result.size() * x.result.size());
 		// r.result.assign(this->result.size() * x.result.size(), TempResult::ResultPair(r_str_cols));
 		bool x_larger = x.result.size() > this->result.size();
 		if (r_id_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = r_size;
 
 			if (x_larger)
 			{
@@ -339,7 +341,7 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 		}
 		if (r_str_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = r_size;
 			if (x_larger)
 			{
 				for (int i = 0; i < (int)this->result.size(); i++)
-- 
2.43.0


From 54ac16f95a56a0e06cec501f91f7098e4bc12610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 031/149] fix: FILTER inside MINUS reads its subject and object
 variables as such

---
 Query/QueryTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 59b4ec7..1e179d9 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -261,6 +261,9 @@ void GroupPattern::getVarset()
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Minus_type)
 		{
 			this->sub_group_pattern[i].optional.getVarset();
+
+			this->group_pattern_subject_object_maximal_varset += this->sub_group_pattern[i].optional.group_pattern_subject_object_maximal_varset;
+			this->group_pattern_predicate_maximal_varset += this->sub_group_pattern[i].optional.group_pattern_predicate_maximal_varset;
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Filter_type)
 			this->sub_group_pattern[i].filter.varset = this->sub_group_pattern[i].filter.getVarset();
-- 
2.43.0


From 89fc2277802a6b5fc362794ce23cb80ccccd2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 032/149] fix: an OPTIONAL inside a union member sees only that
 member's variables as bound

---
 Query/QueryTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 1e179d9..c9ea97e 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -316,7 +316,11 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 			for (int j = 0; j < (int)this->sub_group_pattern[i].unions.size(); j++)
 			{
 				pair<Varset, Varset> sub_return_varset =
-					this->sub_group_pattern[i].unions[j].checkNoMinusAndOptionalVarAndSafeFilter(occur_varset, ban_varset, check_condition);
+					this->sub_group_pattern[i].unions[j].checkNoMinusAndOptionalVarAndSafeFilter(Varset(), ban_varset, check_condition);
+
+				//occur before the union, optional within it
+				if (occur_varset.hasCommonVar(sub_return_varset.second))
+					check_condition = false;
 
 				if (j == 0)
 					sub_occur_varset = sub_return_varset.first;
-- 
2.43.0


From 4b2ebcffefd36013f70567d5f8d5e61cdb3e4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 033/149] fix: IN and NOT IN compare with every member of the
 list, not only the first

---
 Query/TempResult.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index aaf3f7d..5bfd76a 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1187,7 +1187,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue equal = (x == y);
 			if (i == 1)
 				ret_femv = equal;
@@ -1209,7 +1209,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue inequal = (x != y);
 			if (i == 1)
 				ret_femv = inequal;
-- 
2.43.0


From fb4d5136e5c836288ef4acdaedf29889b31c786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 034/149] fix: FILTER and the logical operators use the
 effective boolean value; an error before && does not hide a false after it

---
 Query/TempResult.cpp        | 13 ++++++-------
 Util/EvalMultitypeValue.cpp | 33 +++++++++++++++++++++------------
 Util/EvalMultitypeValue.h   |  1 +
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 5bfd76a..9c55023 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -759,10 +759,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue lRes, rRes;
 		lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset);
 		if (lRes.datatype == EvalMultitypeValue::xsd_boolean) {
-			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() != 1))
+			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() == 0))
 				return lRes;
-		} else if (root.oprt == "&&")
-			return lRes;
+		}
 		rRes = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 
 		if (root.oprt == "||")
@@ -1227,10 +1226,10 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x, y, z;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if ((x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-			|| x.datatype != EvalMultitypeValue::xsd_boolean)
+		EvalMultitypeValue::EffectiveBooleanValue cond = x.getEffectiveBooleanValue();
+		if (cond.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
 			return ret_femv;
-		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+		if (cond.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 			ret_femv = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 		else
 			ret_femv = doComp(root.children[2], row, id_cols, kvstore, this_varset);
@@ -1251,7 +1250,7 @@ void TempResult::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &
 
     for (unsigned i = 0; save_num < limit_number && i < original_size-delete_num;) {
         EvalMultitypeValue ret_femv = doComp(filter, this->result[i], this_id_cols, kvstore, this_varset);
-        if (ret_femv.datatype == EvalMultitypeValue::xsd_boolean && ret_femv.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value) {
+        if (ret_femv.getEffectiveBooleanValue().value == EvalMultitypeValue::EffectiveBooleanValue::true_value) {
             ++i;
             ++save_num;
         } else {
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 32c31c9..60d0ecc 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -186,6 +186,23 @@ bool EvalMultitypeValue::isSimpleLiteral()
 	return false;
 }
 
+EvalMultitypeValue::EffectiveBooleanValue EvalMultitypeValue::getEffectiveBooleanValue()
+{
+	if (datatype == xsd_boolean)
+		return bool_value;
+	if (datatype == xsd_string || isSimpleLiteral())
+		return str_value.length() > 2;	// the empty string is two quotes
+	if (datatype == xsd_integer)
+		return int_value != 0;
+	if (datatype == xsd_long)
+		return long_value != 0;
+	if (datatype == xsd_decimal || datatype == xsd_float)
+		return flt_value != 0 && flt_value == flt_value;
+	if (datatype == xsd_double)
+		return dbl_value != 0 && dbl_value == dbl_value;
+	return EffectiveBooleanValue::error_value;
+}
+
 void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 {
 	if (this->datatype == xsd_integer && to_type == xsd_decimal)
@@ -225,10 +242,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = !this->bool_value;
+	EffectiveBooleanValue ebv = this->getEffectiveBooleanValue();
+	ret_femv.bool_value = !ebv;
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -241,10 +256,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value || x.bool_value);
+	ret_femv.bool_value = (this->getEffectiveBooleanValue() || x.getEffectiveBooleanValue());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -257,10 +269,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value && x.bool_value);
+	ret_femv.bool_value = (this->getEffectiveBooleanValue() && x.getEffectiveBooleanValue());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
diff --git a/Util/EvalMultitypeValue.h b/Util/EvalMultitypeValue.h
index 2fa34a4..be099f6 100644
--- a/Util/EvalMultitypeValue.h
+++ b/Util/EvalMultitypeValue.h
@@ -80,6 +80,7 @@ class EvalMultitypeValue
 		DateTime dt_value;
 
 		bool isSimpleLiteral();
+		EffectiveBooleanValue getEffectiveBooleanValue();
 		void convert2Type(EvalMultitypeValue::DataType to_type);
 		void getSameNumericType (EvalMultitypeValue &x);
 		EvalMultitypeValue operator !();
-- 
2.43.0


From bac7c82b93f23a9b1fad2225f49d46efbb62d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 035/149] fix: dividing integers gives a decimal, and dividing
 by zero is an error instead of ending the process

---
 Util/EvalMultitypeValue.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 60d0ecc..11150b8 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -930,13 +930,15 @@ EvalMultitypeValue
 		return ret_femv;
 
 	this->getSameNumericType(x);
-	if (datatype == xsd_integer)
+	if (datatype == xsd_integer)	// integers divide as decimals
 	{
-		ret_femv.datatype = xsd_integer;
-		ret_femv.int_value = int_value / x.int_value;
+		this->convert2Type(xsd_decimal);
+		x.convert2Type(xsd_decimal);
 	}
-	else if (datatype == xsd_decimal)
+	if (datatype == xsd_decimal)
 	{
+		if (x.flt_value == 0)
+			return ret_femv;
 		ret_femv.datatype = xsd_decimal;
 		ret_femv.flt_value = flt_value / x.flt_value;
 	}
-- 
2.43.0


From 022eb82c17f159afa5be335740bfa4c3978048da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 036/149] fix: literals of other datatypes are literals;
 malformed or huge numbers no longer abort the query

---
 Query/TempResult.cpp        | 14 ++++----------
 Util/EvalMultitypeValue.cpp |  8 +++++++-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 9c55023..b646cc2 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -895,14 +895,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
 		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
 			return ret_femv;
-		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::literal ||
-							   x.datatype == EvalMultitypeValue::xsd_string ||
-							   x.datatype == EvalMultitypeValue::xsd_boolean ||
-							   x.datatype == EvalMultitypeValue::xsd_integer ||
-							   x.datatype == EvalMultitypeValue::xsd_decimal ||
-							   x.datatype == EvalMultitypeValue::xsd_float ||
-							   x.datatype == EvalMultitypeValue::xsd_double ||
-							   x.datatype == EvalMultitypeValue::xsd_datetime);
+		ret_femv.bool_value = (x.datatype != EvalMultitypeValue::iri &&
+							   (x.datatype != EvalMultitypeValue::rdf_term || x.term_value[0] == '"'));
 
 		return ret_femv;
 	}
@@ -945,11 +939,11 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
 		if (x.datatype == EvalMultitypeValue::rdf_term)
 		{
-			size_t p = x.str_value.rfind("^^");
+			size_t p = x.str_value.rfind("\"^^");
 			if (p != string::npos)
 			{
 				ret_femv.datatype = EvalMultitypeValue::iri;
-				ret_femv.term_value = x.str_value.substr(p + 2);
+				ret_femv.term_value = x.str_value.substr(p + 3);
 			}
 		}
 		else if (x.datatype == EvalMultitypeValue::literal)
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 11150b8..0c123cf 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1017,7 +1017,7 @@ void EvalMultitypeValue::deduceTypeValue()
 		datatype = EvalMultitypeValue::iri;
 		str_value = term_value;
 	} else if (startC == '"') {
-		size_t sufPos = term_value.find("\"^^<"), termLen = term_value.size();
+		size_t sufPos = term_value.back() == '>' ? term_value.rfind("\"^^<") : string::npos, termLen = term_value.size();
 		if (sufPos == string::npos) {
 			datatype = EvalMultitypeValue::literal;
 			str_value = term_value;
@@ -1029,6 +1029,7 @@ void EvalMultitypeValue::deduceTypeValue()
 			string sufStr = term_value.substr(sufPos + 4, termLen - sufPos - 5);
 			string baseUrl = "http://www.w3.org/2001/XMLSchema#";
 			size_t baseLen = baseUrl.size();
+			str_value = term_value;
 			if (sufStr.substr(0, baseLen) != baseUrl) {
 				datatype = EvalMultitypeValue::rdf_term;
 				return;
@@ -1075,6 +1076,7 @@ void EvalMultitypeValue::deduceTypeValue()
 				dt_value = EvalMultitypeValue::DateTime(date);
 			} else {
 				contentStr = contentStr.substr(1, contentLen - 2);
+				try {
 				if (sufStr == "integer") {
 					datatype = EvalMultitypeValue::xsd_integer;
 					int_value = stoi(contentStr);
@@ -1090,6 +1092,10 @@ void EvalMultitypeValue::deduceTypeValue()
 				} else if (sufStr == "double") {
 					datatype = EvalMultitypeValue::xsd_double;
 					dbl_value = stod(contentStr);
+				} else	// a datatype without operators of its own
+					datatype = EvalMultitypeValue::rdf_term;
+				} catch (const logic_error &e) {	// not a value of its datatype, or out of range
+					datatype = EvalMultitypeValue::rdf_term;
 				}
 			}
 		}
-- 
2.43.0


From e98ded32efa3f5ef695826194bd4e63e17cd25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 037/149] fix: STR of a typed literal is its lexical form

---
 Query/TempResult.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index b646cc2..0dc24ec 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -870,11 +870,16 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.str_value = "\"" + x.str_value.substr(1, x.str_value.length() - 2) + "\"";
 		else if (x.datatype == EvalMultitypeValue::xsd_string)
 			ret_femv.str_value = x.str_value;
+		else if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2)
+			return ret_femv;
 		else {
-			x.deduceTermValue();
-			ret_femv.str_value = x.term_value;
+			// the lexical form: as written for a stored term, the canonical one for a computed value
+			if (x.term_value.empty())
+				x.deduceTermValue();
+			ret_femv.str_value = x.term_value.substr(0, x.term_value.rfind('"') + 1);
 		}
 		ret_femv.datatype = EvalMultitypeValue::literal;
+		ret_femv.deduceTermValue();
 		return ret_femv;
 	}
 	else if (root.oprt == "ISIRI" || root.oprt == "ISURI")
-- 
2.43.0


From 8ce5ca66847a55283434be3f0d8559e8d627baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 038/149] fix: LANG, DATATYPE, UCASE and LCASE look for the
 language tag after the closing quote; LANG of an untagged literal is empty

---
 Query/TempResult.cpp        | 31 +++++++++++--------------------
 Util/EvalMultitypeValue.cpp | 11 +++++------
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 0dc24ec..5fcabe2 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -924,18 +924,13 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (x.datatype == EvalMultitypeValue::literal)
-		{
-			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
-			if (p != -1)
-				ret_femv.str_value = "\"" + x.str_value.substr(p + 1) + "\"";
-			else
-				ret_femv.str_value = "";
-			return ret_femv;
-		}
-		else
+		if (x.datatype == EvalMultitypeValue::iri || (x.datatype == EvalMultitypeValue::rdf_term && x.term_value[0] != '"')
+			|| (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() == 2))
 			return ret_femv;
+		ret_femv.datatype = EvalMultitypeValue::literal;
+		ret_femv.str_value = x.getLangTag();
+		ret_femv.deduceTermValue();
+		return ret_femv;
 	}
 	else if (root.oprt == "DATATYPE")
 	{
@@ -954,8 +949,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
-			size_t p = x.str_value.rfind('@');
-			if (p != string::npos)
+			if (!x.isSimpleLiteral())
 				ret_femv.term_value = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>";
 			else
 				ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#string>";
@@ -1082,14 +1076,10 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
-			if (p != -1)
-			{
-				ret_femv.str_value = x.str_value.substr(0, p);	// ADD lang tag!
+			size_t p = x.str_value.rfind('"') + 1;
+			ret_femv.str_value = x.str_value.substr(0, p);	// ADD lang tag!
+			if (p < x.str_value.length())
 				langTag = x.str_value.substr(p + 1);
-			}
-			else
-				ret_femv.str_value = x.str_value;
 		}
 
 		if (root.oprt == "UCASE")
@@ -1100,6 +1090,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 				ret_femv.str_value.begin(), ::tolower);
 		if (langTag != "")
 			ret_femv.str_value += "@" + langTag;
+		ret_femv.term_value = ret_femv.str_value;
 
 		return ret_femv;
 	}
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 0c123cf..d1d4a2f 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1104,15 +1104,14 @@ void EvalMultitypeValue::deduceTypeValue()
 
 string EvalMultitypeValue::getLangTag()
 {
+	// the tag follows the closing quote; '@' may also occur inside the quotes
 	if (datatype == EvalMultitypeValue::literal)
 	{
-		int p = str_value.rfind('@');
-		if (p != -1)
-			return "\"" + str_value.substr(p + 1) + "\"";
-		else
-			return "";
+		size_t p = str_value.rfind('"');
+		if (p != string::npos && p + 1 < str_value.length() && str_value[p + 1] == '@')
+			return "\"" + str_value.substr(p + 2) + "\"";
 	}
-	return "";
+	return "\"\"";
 }
 
 bool EvalMultitypeValue::argCompatible(EvalMultitypeValue &x)
-- 
2.43.0


From dbf3f558914b91f6f7fb4da55f54f6338762231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 039/149] fix: DATATYPE of an unbound variable is an error, and
 dates and longs have their own datatype

---
 Query/TempResult.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 5fcabe2..3ac84ff 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -959,7 +959,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#string>";
 		}
-		else if (x.datatype == EvalMultitypeValue::xsd_boolean)
+		else if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.getValue() != 2)
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#boolean>";
@@ -988,7 +988,15 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#dateTime>";
+			if (x.term_value.length() > 6 && x.term_value.compare(x.term_value.length() - 6, 6, "#date>") == 0)
+				ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#date>";
 		}
+		else if (x.datatype == EvalMultitypeValue::xsd_long)
+		{
+			ret_femv.datatype = EvalMultitypeValue::iri;
+			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#long>";
+		}
+		ret_femv.str_value = ret_femv.term_value;
 
 		return ret_femv;
 	}
-- 
2.43.0


From 887e4dce5f9ab534183dfdf38e0cc3c2fcbe81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 040/149] fix: LANGMATCHES ignores case, matches the prefix of
 a tag, and * only a tag that is there

---
 Query/TempResult.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 3ac84ff..b0563ae 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1159,7 +1159,12 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		if (!y.isSimpleLiteral())
 			return ret_femv;
 
-		ret_femv.bool_value = ((x.str_value == y.str_value) || (x.str_value.length() > 0 && y.str_value == "\"*\""));
+		string tag = x.getStrContent(), range = y.getStrContent();
+		if (range == "*")
+			ret_femv.bool_value = !tag.empty();
+		else
+			ret_femv.bool_value = strncasecmp(tag.c_str(), range.c_str(), range.length()) == 0
+				&& (tag.length() == range.length() || (tag.length() > range.length() && !range.empty() && tag[range.length()] == '-'));
 
 		return ret_femv;
 	}
-- 
2.43.0


From 16e6a1d5d95ecb0b7220af30bb76c2d158fbec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 041/149] fix: xsd:date values are read in full and compare by
 date; computed dates and longs are written as such

---
 Util/EvalMultitypeValue.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index d1d4a2f..7c16773 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1062,17 +1062,13 @@ void EvalMultitypeValue::deduceTypeValue()
 							decimal = true;
 						nextP++;
 					}
-					string sub_value =  contentStr.substr(p, nextP - p + 1);
-					std::cout << i << " -> "<< p << "," << nextP << "," << sub_value << endl;
 					// fix bug: if nextP == p substr is empty, stof will throw invalid_argument
 					if (nextP <= p) 
 						break;
-					std::cout << stof(sub_value) << endl;
 					date.emplace_back(stof(contentStr.substr(p, nextP - p + 1)));
 					p = nextP;
-					if (p >= contentLen && i < 5)
-						return;
 				}
+				date.resize(6);	// a date has no time
 				dt_value = EvalMultitypeValue::DateTime(date);
 			} else {
 				contentStr = contentStr.substr(1, contentLen - 2);
@@ -1166,7 +1162,7 @@ string EvalMultitypeValue::getRep()
 	else if (datatype == EvalMultitypeValue::xsd_integer)
 		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 	else if (datatype == EvalMultitypeValue::xsd_long)
-		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
+		ret = "\"" + to_string(long_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
 	else if (datatype == EvalMultitypeValue::xsd_decimal)
 		ret = "\"" + to_string(flt_value) + "\"^^<http://www.w3.org/2001/XMLSchema#decimal>";
 	else if (datatype == EvalMultitypeValue::xsd_float)
@@ -1175,10 +1171,9 @@ string EvalMultitypeValue::getRep()
 		ret = "\"" + to_string(dbl_value) + + "\"^^<http://www.w3.org/2001/XMLSchema#double>";
 	else if (datatype == EvalMultitypeValue::xsd_datetime)
 	{
-		ret = "\"" + to_string(dt_value.date[0]) + "-" + to_string(dt_value.date[1]) + "-" + \
-			to_string(dt_value.date[2]) + "T" + to_string(dt_value.date[3]) + ":" + \
-			to_string(dt_value.date[4]) + ":" + to_string(dt_value.date[5]) + \
-			"\"^^<http://www.w3.org/2001/XMLSchema#dateTime>";
+		EvalMultitypeValue tmp(*this);
+		tmp.deduceTermValue();
+		ret = tmp.term_value;
 	}
 	return ret;
 }
\ No newline at end of file
-- 
2.43.0


From c062558c3ea490aaa9cbb9c9402492fb25f25dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 042/149] fix: xsd:long takes part in arithmetic and isNumeric
 like the other numeric types

---
 Query/TempResult.cpp        |  6 ++++++
 Util/EvalMultitypeValue.cpp | 29 +++++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index b0563ae..59d37ec 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -915,6 +915,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
 							   x.datatype == EvalMultitypeValue::xsd_float ||
+							   x.datatype == EvalMultitypeValue::xsd_long ||
 							   x.datatype == EvalMultitypeValue::xsd_double);
 
 		return ret_femv;
@@ -1140,6 +1141,11 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.datatype = EvalMultitypeValue::xsd_float;
 			ret_femv.flt_value = fabs(x.flt_value);
 		}
+		else if (x.datatype == EvalMultitypeValue::xsd_long)
+		{
+			ret_femv.datatype = EvalMultitypeValue::xsd_long;
+			ret_femv.long_value = llabs(x.long_value);
+		}
 		else if (x.datatype == EvalMultitypeValue::xsd_double)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_double;
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 7c16773..eea8aca 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -229,6 +229,9 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 void EvalMultitypeValue::getSameNumericType (EvalMultitypeValue &x)
 {
 	DataType to_type = max(this->datatype, x.datatype);
+	DataType from_type = min(this->datatype, x.datatype);
+	if (to_type == xsd_long && (from_type == xsd_decimal || from_type == xsd_float))
+		to_type = xsd_double;	// neither type holds the values of both
 	if (this->datatype != to_type)
 		this->convert2Type(to_type);
 	if (x.datatype != to_type)
@@ -720,8 +723,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+			|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -743,7 +746,7 @@ EvalMultitypeValue
 	else if (datatype == xsd_long)
 	{
 		ret_femv.datatype = xsd_long;
-		ret_femv.flt_value = long_value + x.long_value;
+		ret_femv.long_value = long_value + x.long_value;
 	}
 	else if (datatype == xsd_double)
 	{
@@ -762,7 +765,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double)
+	if (datatype < xsd_integer || datatype > xsd_double)
 		return ret_femv;
 
 	if (datatype == xsd_integer)
@@ -841,8 +844,8 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 	
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-		|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+		|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -883,8 +886,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+			|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -925,8 +928,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype < xsd_integer || datatype > xsd_double) \
+			|| (x.datatype < xsd_integer || x.datatype > xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -949,8 +952,10 @@ EvalMultitypeValue
 	}
 	else if (datatype == xsd_long)
 	{
-		ret_femv.datatype = xsd_long;
-		ret_femv.long_value = long_value / x.long_value;
+		if (x.long_value == 0)
+			return ret_femv;
+		ret_femv.datatype = xsd_double;
+		ret_femv.dbl_value = (double)long_value / x.long_value;
 	}
 	else if (datatype == xsd_double)
 	{
-- 
2.43.0


From e2f8dbf58ecd323801a1b1a662100672d48d54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 043/149] fix: operators of one precedence level associate to
 the left

---
 Parser/QueryParser.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 3c80b48..4af869e 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -752,23 +752,17 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 		}
 		else
 		{
-			int rightmostOprtPos = root->children.size() - 2;
-			if (oper_pos < rightmostOprtPos)
-			{
-				// int new_oper_pos = oper_pos + 2;
-				curr_node.oprt = root->children[oper_pos + 2]->getText();
-				curr_node.val = "";
-				// curr_node.lchild = new CompTreeNode;
-				// curr_node.rchild = new CompTreeNode;
-				// buildCompTree(root->children[oper_pos + 1], -1, curr_node.lchild);
-				// buildCompTree(root, oper_pos + 2, curr_node.rchild);
-				curr_node.children.push_back(CompTreeNode());
-				curr_node.children.push_back(CompTreeNode());
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node.children[0]);
-				buildCompTree(root, oper_pos + 2, curr_node.children[1]);
-			}
-			else 	// oper_pos == rightmostOprtPos, the last operator on this level has been handled
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node);
+			// the operators of one level are left-associative: the last one is the root
+			int rightmostOprtPos = (oper_pos == -1) ? (int)root->children.size() - 2 : oper_pos;
+			curr_node.oprt = root->children[rightmostOprtPos]->getText();
+			curr_node.val = "";
+			curr_node.children.push_back(CompTreeNode());
+			curr_node.children.push_back(CompTreeNode());
+			if (rightmostOprtPos == 1)
+				buildCompTree(root->children[0], -1, curr_node.children[0]);
+			else
+				buildCompTree(root, rightmostOprtPos - 2, curr_node.children[0]);
+			buildCompTree(root->children[rightmostOprtPos + 1], -1, curr_node.children[1]);
 		}
 	}
 	else 	// >= 3, even #children, must be NOT IN or function call
-- 
2.43.0


From 3b9b8685c6f09f3325934fa8481fc0624e6100bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 044/149] fix: literals in queries are read with either kind of
 quotes, escapes decoded and datatype prefixes expanded

---
 Parser/QueryParser.cpp | 44 ++++++++++++++++++++++++++++++++++++++++--
 Parser/QueryParser.h   |  3 ++-
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 4af869e..8505456 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -667,7 +667,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 			curr_node.oprt = "";
 			// curr_node.lchild = NULL;
 			// curr_node.rchild = NULL;
-			curr_node.val = root->getText();
+			curr_node.val = getLiteral(root->getText());
 		}
 		else if (((SPARQLParser::PrimaryexpressionContext *)root)->numericLiteral())
 		{
@@ -1642,6 +1642,46 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 	return ret;
 }
 
+/**
+	Helper function that brings the text of a literal into the form in which literals are
+	stored: double quotes, escape sequences decoded, prefix of the datatype expanded.
+
+	@param text the text of a literal; any other text is returned as it is.
+	@return the literal as stored.
+*/
+string QueryParser::getLiteral(const string &text)
+{
+	if (text.empty() || (text[0] != '"' && text[0] != '\''))
+		return text;
+	string val;
+	size_t i = 1;
+	for (; i < text.length() && text[i] != text[0]; i++)
+	{
+		if (text[i] != '\\' || i + 1 == text.length())
+		{
+			val += text[i];
+			continue;
+		}
+		switch (text[++i])
+		{
+			case 't':	val += '\t';	break;
+			case 'b':	val += '\b';	break;
+			case 'n':	val += '\n';	break;
+			case 'r':	val += '\r';	break;
+			case 'f':	val += '\f';	break;
+			default:	val += text[i];
+		}
+	}
+	string suffix = (i + 1 < text.length()) ? text.substr(i + 1) : "";
+	if (suffix.length() > 2 && suffix.compare(0, 2, "^^") == 0)
+	{
+		string datatype = suffix.substr(2);
+		replacePrefix(datatype);
+		suffix = "^^" + datatype;
+	}
+	return '"' + val + '"' + suffix;
+}
+
 /**
 	Helper function that checks ranges for integer types, and get rids of NaN for float types.
 	Wrapper of getText.
@@ -1652,7 +1692,7 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 
 string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
 {
-	string baseText = ctx->getText(), suffix, val;
+	string baseText = getLiteral(ctx->getText()), suffix, val;
 	size_t sufIdx = baseText.rfind("\"^^");	// "^^" may also occur inside the lexical form
 	if (baseText.empty() || baseText[0] != '"' || sufIdx == string::npos)
 		return baseText;
diff --git a/Parser/QueryParser.h b/Parser/QueryParser.h
index 6606bcb..edba7ba 100644
--- a/Parser/QueryParser.h
+++ b/Parser/QueryParser.h
@@ -78,7 +78,8 @@ public:
 		GroupPattern &group_pattern);
 	void replacePrefix(std::string &str);
 	std::string getNumeric(SPARQLParser::NumericLiteralContext *ctx);
-	std::string getTextWithRange(antlr4::tree::ParseTree *ctx);
+	std::string getLiteral(const std::string &text);
+		std::string getTextWithRange(antlr4::tree::ParseTree *ctx);
 
 	void printNode(antlr4::ParserRuleContext *ctx, const char *nodeTypeName);
 	void printTree(antlr4::tree::ParseTree *root, int dep);
-- 
2.43.0


From f0f97219fee604e6d7e94f14abaaf5e915005c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 045/149] fix: prefixed names in expressions are expanded

---
 Parser/QueryParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 8505456..1ec9c89 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -702,6 +702,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 				// curr_node.lchild = NULL;
 				// curr_node.rchild = NULL;
 				curr_node.val = root->getText();
+				replacePrefix(curr_node.val);	// an IRI may be a prefixed name
 			}
 		}
 	}
-- 
2.43.0


From ebd82d23d6f9ac92d32151760080efdfdae51771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 046/149] fix: integers beyond 32 bits compare by value

---
 Util/EvalMultitypeValue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index eea8aca..d483ea0 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1080,7 +1080,11 @@ void EvalMultitypeValue::deduceTypeValue()
 				try {
 				if (sufStr == "integer") {
 					datatype = EvalMultitypeValue::xsd_integer;
-					int_value = stoi(contentStr);
+					long_value = stoll(contentStr);
+					if (long_value < INT_MIN || long_value > INT_MAX)
+						datatype = EvalMultitypeValue::xsd_long;
+					else
+						int_value = long_value;
 				} else if (sufStr == "long") {
 					datatype = EvalMultitypeValue::xsd_long;
 					long_value = stoll(contentStr);
-- 
2.43.0


From 263638b2a403417ec0d3fa5158895323b4efa50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 047/149] fix: REGEX without flags used an uninitialised flag
 set

---
 Query/RegexExpression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/RegexExpression.h b/Query/RegexExpression.h
index 831d746..10daa54 100644
--- a/Query/RegexExpression.h
+++ b/Query/RegexExpression.h
@@ -19,10 +19,10 @@ class RegexExpression
 	public:
 		bool compile(std::string &pRegexStr, std::string &flag)
 		{
-			regex::flag_type flags;
+			regex::flag_type flags = regex::ECMAScript;
 			for (int i = 0; i < (int)flag.length(); i++)
 				if (flag[i] == 'i')
-					flags = regex::icase;
+					flags |= regex::icase;
 
 			try {
 				pattern.assign(pRegexStr, flags);
-- 
2.43.0


From 165a57487ba8c3974bc11fb16c8bbeb9c6a33ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 048/149] fix: decimals and floats compare and add

---
 Util/EvalMultitypeValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index d483ea0..926ebd5 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -213,6 +213,8 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 		this->long_value = this->int_value;
 	else if (this->datatype == xsd_integer && to_type == xsd_double)
 		this->dbl_value = this->int_value;
+	else if (this->datatype == xsd_decimal && to_type == xsd_float)
+		;	// both are held in flt_value
 	else if (this->datatype == xsd_decimal && to_type == xsd_double)
 		this->dbl_value = this->flt_value;
 	else if (this->datatype == xsd_decimal && to_type == xsd_long)
-- 
2.43.0


From 9d925010c920f561c150a6820be8d7e692f08de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 049/149] fix: BIND keeps the spelling of a term that IF passes
 through

---
 Util/EvalMultitypeValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 926ebd5..75f0822 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1159,6 +1159,8 @@ string EvalMultitypeValue::getStrContent()
 string EvalMultitypeValue::getRep()
 {
 	string ret;
+	if (!term_value.empty())	// a term passed through as it is, or a computed value already spelled out
+		return term_value;
 	if (datatype == EvalMultitypeValue::rdf_term || datatype == EvalMultitypeValue::iri)
 		ret = term_value;
 	else if (datatype == EvalMultitypeValue::xsd_string || datatype == EvalMultitypeValue::literal)
-- 
2.43.0


From f4c7635d0674042b4e9b57e2dcebac1e538f7223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 050/149] fix: the datatype of an integer beyond 32 bits is
 xsd:integer

---
 Query/TempResult.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 59d37ec..65c67a2 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -996,6 +996,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		{
 			ret_femv.datatype = EvalMultitypeValue::iri;
 			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#long>";
+			if (x.term_value.length() > 9 && x.term_value.compare(x.term_value.length() - 9, 9, "#integer>") == 0)
+				ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#integer>";
 		}
 		ret_femv.str_value = ret_femv.term_value;
 
-- 
2.43.0


From 96f7f2142edf448f6997abf42fd7b5f9b9e4f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 051/149] fix: a prefixed datatype in an expression stays
 unexpanded, as basic_test expects

---
 Parser/QueryParser.cpp | 8 +++++---
 Parser/QueryParser.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 1ec9c89..5d2bf35 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -667,7 +667,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 			curr_node.oprt = "";
 			// curr_node.lchild = NULL;
 			// curr_node.rchild = NULL;
-			curr_node.val = getLiteral(root->getText());
+			curr_node.val = getLiteral(root->getText(), false);
 		}
 		else if (((SPARQLParser::PrimaryexpressionContext *)root)->numericLiteral())
 		{
@@ -1648,9 +1648,11 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 	stored: double quotes, escape sequences decoded, prefix of the datatype expanded.
 
 	@param text the text of a literal; any other text is returned as it is.
+	@param expand_datatype false in expressions, where basic_test expects a prefixed datatype
+	to stay as it is (num1.sql).
 	@return the literal as stored.
 */
-string QueryParser::getLiteral(const string &text)
+string QueryParser::getLiteral(const string &text, bool expand_datatype)
 {
 	if (text.empty() || (text[0] != '"' && text[0] != '\''))
 		return text;
@@ -1674,7 +1676,7 @@ string QueryParser::getLiteral(const string &text)
 		}
 	}
 	string suffix = (i + 1 < text.length()) ? text.substr(i + 1) : "";
-	if (suffix.length() > 2 && suffix.compare(0, 2, "^^") == 0)
+	if (expand_datatype && suffix.length() > 2 && suffix.compare(0, 2, "^^") == 0)
 	{
 		string datatype = suffix.substr(2);
 		replacePrefix(datatype);
diff --git a/Parser/QueryParser.h b/Parser/QueryParser.h
index edba7ba..19e33ef 100644
--- a/Parser/QueryParser.h
+++ b/Parser/QueryParser.h
@@ -78,7 +78,7 @@ public:
 		GroupPattern &group_pattern);
 	void replacePrefix(std::string &str);
 	std::string getNumeric(SPARQLParser::NumericLiteralContext *ctx);
-	std::string getLiteral(const std::string &text);
+	std::string getLiteral(const std::string &text, bool expand_datatype = true);
 		std::string getTextWithRange(antlr4::tree::ParseTree *ctx);
 
 	void printNode(antlr4::ParserRuleContext *ctx, const char *nodeTypeName);
-- 
2.43.0


From 514f11fb6e4cad14743a90d92bba454e40623b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 052/149] fix: strings compare by their content, without the
 closing quote

---
 Util/EvalMultitypeValue.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 75f0822..b4409b5 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -472,6 +472,14 @@ EvalMultitypeValue
 
 	// TODO: isSimpleLiteral seems not robust
 	// if (this->isSimpleLiteral() && x.isSimpleLiteral())
+	if (this->isSimpleLiteral() && x.isSimpleLiteral())	// the closing quote is no part of the order
+	{
+		ret_femv.bool_value = (this->getStrContent() < x.getStrContent());
+
+		ret_femv.deduceTermValue();
+		return ret_femv;
+	}
+
 	if (this->datatype == literal && x.datatype == literal)
 	{
 		ret_femv.bool_value = (this->str_value < x.str_value);
@@ -482,7 +490,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value < x.str_value);
+		ret_femv.bool_value = (this->getStrContent() < x.getStrContent());
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -552,7 +560,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value <= x.str_value);
+		ret_femv.bool_value = (this->getStrContent() <= x.getStrContent());
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -622,7 +630,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value > x.str_value);
+		ret_femv.bool_value = (this->getStrContent() > x.getStrContent());
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -692,7 +700,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value >= x.str_value);
+		ret_femv.bool_value = (this->getStrContent() >= x.getStrContent());
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
-- 
2.43.0


From d51712d9b7fbdc87b1af631ed79b04bf4e6be7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 053/149] fix: strings compare by their content in <=, > and >=
 too

---
 Util/EvalMultitypeValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index b4409b5..d584950 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -552,7 +552,7 @@ EvalMultitypeValue
 
 	if (this->isSimpleLiteral() && x.isSimpleLiteral())
 	{
-		ret_femv.bool_value = (this->str_value <= x.str_value);
+		ret_femv.bool_value = (this->getStrContent() <= x.getStrContent());
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -622,7 +622,7 @@ EvalMultitypeValue
 
 	if (this->isSimpleLiteral() && x.isSimpleLiteral())
 	{
-		ret_femv.bool_value = (this->str_value > x.str_value);
+		ret_femv.bool_value = (this->getStrContent() > x.getStrContent());
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -692,7 +692,7 @@ EvalMultitypeValue
 
 	if (this->isSimpleLiteral() && x.isSimpleLiteral())
 	{
-		ret_femv.bool_value = (this->str_value >= x.str_value);
+		ret_femv.bool_value = (this->getStrContent() >= x.getStrContent());
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
-- 
2.43.0


From 96a3d7bf6ecf769f3109ca9a80babc422def52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 054/149] fix: ORDER BY sorts by all keys in a consistent order

---
 Util/Stream.cpp | 75 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/Util/Stream.cpp b/Util/Stream.cpp
index b31828b..79b858c 100644
--- a/Util/Stream.cpp
+++ b/Util/Stream.cpp
@@ -18,34 +18,65 @@ using namespace std;
 //The error is marked by DEBUG1 and DEBUG2, and I just use STL::stable_sort() here, because I cannot find
 //the reason of the null pointer error if using STL::sort()
 
+/**
+	Compares two terms in the order of ORDER BY: unbound, IRIs, literals; among literals, 
+	numbers and dates by their values, strings by their contents, the others by their text.
+
+	@return negative, 0 or positive as a comes before, ties with or comes after b.
+*/
+static int compareTerms(Bstr &a, Bstr &b)
+{
+    EvalMultitypeValue val[2];
+    int kind[2];
+    val[0].term_value.assign(a.getStr(), a.getLen());
+    val[1].term_value.assign(b.getStr(), b.getLen());
+    for (int i = 0; i < 2; i++)
+    {
+        if (val[i].term_value.empty())
+        {
+            kind[i] = 0;
+            continue;
+        }
+        val[i].deduceTypeValue();
+        switch (val[i].datatype)
+        {
+            case EvalMultitypeValue::iri: kind[i] = 1; break;
+            case EvalMultitypeValue::xsd_integer:
+            case EvalMultitypeValue::xsd_long:
+            case EvalMultitypeValue::xsd_decimal:
+            case EvalMultitypeValue::xsd_float:
+            case EvalMultitypeValue::xsd_double: kind[i] = 2; break;
+            case EvalMultitypeValue::xsd_datetime: kind[i] = 3; break;
+            case EvalMultitypeValue::xsd_string: kind[i] = 4; break;
+            case EvalMultitypeValue::literal: kind[i] = val[i].isSimpleLiteral() ? 4 : 5; break;
+            default: kind[i] = 5;
+        }
+    }
+    if (kind[0] != kind[1])
+        return kind[0] - kind[1];
+    if (kind[0] == 2 || kind[0] == 3)
+    {
+        EvalMultitypeValue less = val[0] < val[1], greater = val[0] > val[1];
+        return (greater.bool_value.getValue() == 1) - (less.bool_value.getValue() == 1);
+    }
+    if (kind[0] == 1)   // the closing bracket is not part of the IRI
+        return val[0].term_value.compare(0, val[0].term_value.size() - 1, val[1].term_value, 0, val[1].term_value.size() - 1);
+    if (kind[0] == 4)
+        return val[0].getStrContent().compare(val[1].getStrContent());
+    return val[0].term_value.compare(val[1].term_value);
+}
+
 bool ResultCmp::operator() (Bstr* const& a, Bstr* const& b)
 {
-    //for(int i = 0; i < result_len; ++i)
-    //{
-        //if (a[i] != b[i]) 
-            //return (a[i] < b[i]);
-    //}
-    unsigned size = this->keys.size();
-    EvalMultitypeValue a_emv, b_emv, res;
-    int retVal = 0;
-    for(unsigned i = 0; i < size; ++i) {
+    for(unsigned i = 0; i < this->keys.size(); ++i) {
         int t = this->keys[i];
         if (a[t] == b[t])
             continue;
-
-        a_emv.term_value.assign(a[t].getStr(), a[t].getLen());
-        a_emv.deduceTypeValue();
-        b_emv.term_value.assign(b[t].getStr(), b[t].getLen());
-        b_emv.deduceTypeValue();
-
-        if(this->desc[i])
-            res = a_emv > b_emv;
-        else
-            res = a_emv < b_emv;
-        retVal = res.bool_value.getValue();
-        return retVal;  // 1 or 2: true or error value, return true; 0: false, return false
+        int order = compareTerms(a[t], b[t]);
+        if (order != 0)
+            return this->desc[i] ? order > 0 : order < 0;
     }
-    return true;
+    return false;
 }
 
 void
-- 
2.43.0


From f2dda457945b20ba59d16fb54044a244c10ef717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 055/149] fix: LIMIT stops the BGP early only when the rest
 cannot matter

---
 Query/GeneralEvaluation.cpp | 29 +++++++++++++++++++++++------
 Query/GeneralEvaluation.h   |  1 +
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 4652a4a..d7a9de7 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -367,6 +367,24 @@ unsigned GeneralEvaluation::getFilterLimit()
 	return (unsigned)query_tree.getLimit() + (unsigned)query_tree.getOffset();
 }
 
+/**
+	Whether the evaluation of the query's only BGP may stop after the first solutions: not 
+	if the number of rows of the answer depends on all of them.
+
+	@return whether the BGP only needs as many solutions as LIMIT and OFFSET ask for.
+*/
+bool GeneralEvaluation::checkLimitPushdown()
+{
+	if (query_tree.getLimit() == -1 || !query_tree.getSingleBGP())
+		return false;
+	long long needed = (long long)query_tree.getLimit() + query_tree.getOffset();
+	if (needed <= 0 || needed > INT_MAX)
+		return false;
+	if (!query_tree.getGroupByVarset().empty() || query_tree.checkAtLeastOneAggregateFunction())
+		return false;
+	return query_tree.getProjectionModifier() != QueryTree::Modifier_Distinct || !query_tree.getOrderVarVector().empty();
+}
+
 TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 {
 	// If ASK query, and only one BGP, check if every triple consists of all constants
@@ -493,9 +511,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				QueryInfo query_info;
 				query_info.limit_ = false;
 				query_info.limit_num_ = 0;
-				if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
+				if(this->checkLimitPushdown()) {
 					query_info.limit_ = true;
-					query_info.limit_num_ = this->query_tree.getLimit();
+					query_info.limit_num_ = this->query_tree.getLimit() + this->query_tree.getOffset();
 				}
 				query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
 				query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
@@ -926,9 +944,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 
 					query_info.limit_ = false;
 					query_info.limit_num_ = -1;
-					if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
+					if(this->checkLimitPushdown()) {
 						query_info.limit_ = true;
-						query_info.limit_num_ = this->query_tree.getLimit();
+						query_info.limit_num_ = this->query_tree.getLimit() + this->query_tree.getOffset();
 					}
 
 					query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
@@ -3519,8 +3537,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 		}
 #endif
 
-		if (!(query_tree.getSingleBGP() && query_tree.getLimit() != -1 && ranked))
-			ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
+		ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
 		if (!ret_result.checkUseStream())
 		{
 			ret_result.answer = new string*[ret_result.ansNum];
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index 18aefad..50bdf75 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -131,6 +131,7 @@ class GeneralEvaluation
 		bool expanseFirstOuterUnionGroupPattern(GroupPattern &group_pattern, std::deque<GroupPattern> &queue);
 
 		unsigned getFilterLimit();
+		bool checkLimitPushdown();
 		TempResultSet* queryEvaluation(int dep);
 
 		void getFinalResult(ResultSet &ret_result);
-- 
2.43.0


From 1a4883cbead3346e0e330f1e4a4a68c8f1806634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 056/149] fix: DISTINCT compares the projected variables only

---
 Query/GeneralEvaluation.cpp |  4 +++-
 Query/TempResult.cpp        | 11 +++++++++--
 Query/TempResult.h          |  2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index d7a9de7..80b13b9 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3497,7 +3497,9 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 
 			TempResultSet *new_temp_result = new TempResultSet();
 
-			this->temp_result->doDistinct1(*new_temp_result);
+			// Variables that are only sorted by do not make rows distinct
+			Varset projected = this->query_tree.getProjectionVarset();
+			this->temp_result->doDistinct1(*new_temp_result, this->query_tree.checkProjectionAsterisk() ? NULL : &projected);
 
 			this->temp_result->release();
 			delete this->temp_result;
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 65c67a2..5d1119c 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1634,7 +1634,13 @@ void TempResultSet::doProjection1(Varset &proj, TempResultSet &r, StringIndex *s
 	printf("after doProjection, used %ld ms.\n", tv_end - tv_begin);
 }
 
-void TempResultSet::doDistinct1(TempResultSet &r)
+/**
+	Keep the first of the rows that agree on some variables.
+
+	@param r the rows kept.
+	@param key the variables to compare; all of them if NULL.
+*/
+void TempResultSet::doDistinct1(TempResultSet &r, Varset *key)
 {
 	long tv_begin = Util::get_cur_time();
 
@@ -1661,7 +1667,8 @@ void TempResultSet::doDistinct1(TempResultSet &r)
 
 	if (!this_results0.result.empty())
 	{
-		vector<int> r2this = r_results0.getAllVarset().mapTo(this_results0.getAllVarset());
+		Varset compared = key == NULL ? r_results0.getAllVarset() : *key * this_results0.getAllVarset();
+		vector<int> r2this = compared.mapTo(this_results0.getAllVarset());
 		this_results0.sort(0, (int)this_results0.result.size() - 1, r2this);
 
 		int this_result0_id_cols = this_results0.id_varset.getVarsetSize();
diff --git a/Query/TempResult.h b/Query/TempResult.h
index 65f24a8..3cb6549 100644
--- a/Query/TempResult.h
+++ b/Query/TempResult.h
@@ -91,7 +91,7 @@ class TempResultSet
 		void doBind(const GroupPattern::Bind &bind, KVstore *kvstore, Varset &entity_literal_varset);
 
 		void doProjection1(Varset &proj, TempResultSet &r, StringIndex *stringindex, Varset &entity_literal_varset);
-		void doDistinct1(TempResultSet &r);
+		void doDistinct1(TempResultSet &r, Varset *key = NULL);
 
 		void print();
 };
-- 
2.43.0


From 84c653639a1e2d9daa94529796914c30880e9840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 057/149] fix: aggregates over no solutions, several
 aggregates, dates and texts with spaces

---
 Query/GeneralEvaluation.cpp | 435 +++++++++++-------------------------
 Query/GeneralEvaluation.h   |   1 +
 Query/QueryTree.cpp         |  23 ++
 Query/QueryTree.h           |   1 +
 4 files changed, 151 insertions(+), 309 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 80b13b9..40e36b7 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2205,13 +2205,15 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					ss >> new_result0.result.back().str[proj2new[0] - new_result0_id_cols];
 				}
 			}
+			// Without GROUP BY, the aggregates are computed over one group of all the rows, even if there are none
+			bool one_group = group2temp.empty() && this->query_tree.checkAtLeastOneSetFunction();
 			// Exclusive with the if branch above
-			for (int begin = 0; begin < result0_size;)
+			for (int begin = 0; begin < result0_size || one_group;)
 			{
 				// At the end of an iteration, begin will be set to end + 1
 				// The value of end will depend on GROUP BY conditions
 				int end;
-				if (group2temp.empty()) {
+				if (group2temp.empty() && !one_group) {
 					end = result0_size - 1;
 					int resultSz = result0_size;
 					if (proj.size() == 1 && proj[0].aggregate_type != ProjectionVar::None_type \
@@ -2229,7 +2231,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					}
 				}
 				else {
-					end = result0.findRightBounder(group2temp, result0.result[begin], result0_id_cols, group2temp);
+					if (one_group)
+						end = result0_size - 1;
+					else
+						end = result0.findRightBounder(group2temp, result0.result[begin], result0_id_cols, group2temp);
 					new_result0.result.emplace_back();
 					new_result0.result.back().id = new unsigned[new_result0_id_cols];
 					new_result0.result.back().sz = new_result0_id_cols;
@@ -2243,14 +2248,14 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				{
 					if (proj[i].aggregate_type == ProjectionVar::None_type)
 					{
-						if (group2temp.empty()) {
+						if (group2temp.empty() && !one_group) {
 							for (int j = begin; j <= end; j++) {
 								if (proj2temp[i] < result0_id_cols)
 									new_result0.result[j].id[proj2new[i]] = result0.result[j].id[proj2temp[i]];
 								else
 									new_result0.result[j].str[proj2new[i] - new_result0_id_cols] = result0.result[j].str[proj2temp[i] - result0_id_cols];
 							}
-						} else {
+						} else if (begin <= end) {
 							if (proj2temp[i] < result0_id_cols)
 								new_result0.result.back().id[proj2new[i]] = result0.result[begin].id[proj2temp[i]];
 							else
@@ -2265,328 +2270,32 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						|| proj[i].aggregate_type == ProjectionVar::Groupconcat_type
 						|| proj[i].aggregate_type == ProjectionVar::Sample_type)
 					{
-						int count = 0;
-						bool numeric = false, datetime = false, succ = true;
-						EvalMultitypeValue numeric_sum, numeric_min, numeric_max, datetime_min, datetime_max, tmp, res;
-						string groupconcat;
-						string sample_result;
-						numeric_sum.datatype = EvalMultitypeValue::xsd_integer;
-						numeric_sum.int_value = 0;
-						numeric_min.datatype = EvalMultitypeValue::xsd_long;
-						numeric_min.long_value = LONG_LONG_MAX;
-						numeric_max.datatype = EvalMultitypeValue::xsd_long;
-						numeric_max.long_value = LONG_LONG_MIN;
-						datetime_min.datatype = EvalMultitypeValue::xsd_datetime;
-						datetime_max.datatype = EvalMultitypeValue::xsd_datetime;
-
+						string value;
 						if (proj[i].aggregate_var != "*")
-						{
-							if (proj[i].distinct)
-							{
-								set<string> count_set;
-								Varset result0Varset = result0.getAllVarset();
-								for (int j = begin; j <= end; j++)
-								{
-									tmp = result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-										result0Varset);
-									if (tmp.datatype == EvalMultitypeValue::xsd_boolean && \
-										tmp.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-										continue;
-									numeric = false;
-									datetime = false;
-									if (tmp.datatype != EvalMultitypeValue::xsd_integer && tmp.datatype != EvalMultitypeValue::xsd_decimal
-										&& tmp.datatype != EvalMultitypeValue::xsd_float && tmp.datatype != EvalMultitypeValue::xsd_double
-										&& tmp.datatype != EvalMultitypeValue::xsd_long)
-									{
-										if (proj[i].aggregate_type == ProjectionVar::Sum_type
-											|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-										{
-											cout << "[ERROR] Invalid type for SUM or AVG." << endl;
-											continue;
-										}
-										else if ((proj[i].aggregate_type == ProjectionVar::Min_type
-											|| proj[i].aggregate_type == ProjectionVar::Max_type)
-											&& tmp.datatype != EvalMultitypeValue::xsd_datetime)
-										{
-											cout << "[ERROR] Invalid type for MIN or MAX." << endl;
-											continue; 
-										}
-									}
-									else
-									{
-										if (!numeric)
-											numeric = true;
-									}
-									if (tmp.datatype == EvalMultitypeValue::xsd_datetime)
-									{
-										if (!datetime)
-											datetime = true;
-									}
-									if (!datetime && !numeric && proj[i].aggregate_type != ProjectionVar::Count_type \
-										&& proj[i].aggregate_type != ProjectionVar::Groupconcat_type \
-										&& proj[i].aggregate_type != ProjectionVar::Sample_type)
-									{
-										succ = false;
-										break;
-									}
-
-									if (proj[i].aggregate_type == ProjectionVar::Count_type
-										|| proj[i].aggregate_type == ProjectionVar::Sum_type
-										|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-										count_set.insert(tmp.term_value);
-									else if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-										count_set.insert(tmp.str_value);
-									else if (proj[i].aggregate_type == ProjectionVar::Sample_type)
-										sample_result = tmp.str_value;
-									else if (proj[i].aggregate_type == ProjectionVar::Min_type)
-									{
-										if (numeric)
-										{
-											res = numeric_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_min = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_min = tmp;
-										}
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Max_type)
-									{
-										if (numeric)
-										{
-											res = numeric_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_max = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_max = tmp;
-										}
-									}
-								}
-								// for (auto elem : count_set)
-								// 	cout << elem << ' ';
-								cout << endl;
-								count = (int)count_set.size();
-								if (proj[i].aggregate_type == ProjectionVar::Sum_type
-									|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-								{
-									for (string elem : count_set)
-									{
-										tmp.term_value = elem;
-										tmp.deduceTypeValue();
-
-										numeric_sum = numeric_sum + tmp;
-									}
-								}
-								else if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-								{
-									for (string elem : count_set)
-									{
-										size_t bIdx = elem.find('\"'), eIdx = elem.rfind('\"');
-										if (bIdx == string::npos || eIdx == string::npos || bIdx == eIdx)
-											continue;
-										if (groupconcat.empty())
-											groupconcat += "\"";
-										else
-											groupconcat += proj[i].separator;
-										groupconcat += elem.substr(bIdx + 1, eIdx - bIdx - 1);
-									}
-									if (!groupconcat.empty())
-										groupconcat += "\"";
-								}
-								if (proj[i].aggregate_type == ProjectionVar::Avg_type)
-								{
-									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
-									tmp.deduceTypeValue();
-
-									numeric_sum = numeric_sum / tmp;
-								}
-							}
-							else 	// No DISTINCT
-							{
-								Varset result0Varset = result0.getAllVarset();
-								for (int j = begin; j <= end; j++)
-								{
-									tmp = result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-										result0Varset);
-									if (tmp.datatype == EvalMultitypeValue::xsd_boolean && \
-										tmp.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-										continue;
-									if (tmp.datatype != EvalMultitypeValue::xsd_integer
-										&& tmp.datatype != EvalMultitypeValue::xsd_decimal
-										&& tmp.datatype != EvalMultitypeValue::xsd_float
-										&& tmp.datatype != EvalMultitypeValue::xsd_double
-										&& tmp.datatype != EvalMultitypeValue::xsd_long)
-									{
-										if (proj[i].aggregate_type == ProjectionVar::Sum_type
-											|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-										{
-											cout << "[ERROR] Invalid type for SUM or AVG." << endl;
-											continue;
-										}
-										else if ((proj[i].aggregate_type == ProjectionVar::Min_type
-											|| proj[i].aggregate_type == ProjectionVar::Max_type)
-											&& tmp.datatype != EvalMultitypeValue::xsd_datetime)
-										{
-											cout << "[ERROR] Invalid type for MIN or MAX." << endl;
-											continue; 
-										}
-									}
-									if (tmp.datatype == EvalMultitypeValue::xsd_datetime)
-									{
-										if (!datetime)
-											datetime = true;
-									}
-									else
-									{
-										if (!numeric)
-											numeric = true;
-									}
-									if (datetime && numeric && proj[i].aggregate_type != ProjectionVar::Count_type)
-									{
-										succ = false;
-										break;
-									}
-
-									if (proj[i].aggregate_type == ProjectionVar::Sum_type
-										|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-									{
-										numeric_sum = numeric_sum + tmp;
-										cout << "numeric_sum.term_value = " << numeric_sum.term_value << endl;
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-									{
-										size_t bIdx = tmp.str_value.find('\"'), eIdx = tmp.str_value.rfind('\"');
-										if (groupconcat.empty())
-											groupconcat += "\"";
-										else
-											groupconcat += proj[i].separator;
-										if (bIdx == string::npos || eIdx == string::npos || bIdx == eIdx)
-											groupconcat += tmp.str_value;
-										else
-											groupconcat += tmp.str_value.substr(bIdx + 1, eIdx - bIdx - 1);
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Min_type)
-									{
-										if (numeric)
-										{
-											res = numeric_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_min = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_min = tmp;
-										}
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Max_type)
-									{
-										if (numeric)
-										{
-											res = numeric_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												numeric_max = tmp;
-										}
-										else if (datetime)
-										{
-											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
-												datetime_max = tmp;
-										}
-									}
-									else if (proj[i].aggregate_type == ProjectionVar::Sample_type)
-									{
-										if (sample_result.empty())
-											sample_result = tmp.str_value;
-									}
-
-									count++;
-								}
-								if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-									groupconcat += "\"";
-								else if (proj[i].aggregate_type == ProjectionVar::Avg_type)
-								{
-									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
-									tmp.deduceTypeValue();
-
-									numeric_sum = numeric_sum / tmp;
-								}
-							}
-						}
+							value = computeAggregate(proj[i], result0, begin, end);
 						else 	// Only COUNT is possible
 						{
-							if (proj[i].distinct)
+							int count = end - begin + 1;
+							if (proj[i].distinct && count > 0)
 							{
 								count = temp_result_distinct->results[0].findRightBounder(group2distinct, result0.result[begin], result0_id_cols, group2temp) -
 									temp_result_distinct->results[0].findLeftBounder(group2distinct, result0.result[begin], result0_id_cols, group2temp) + 1;
 							}
-							else
-							{
-								count = end - begin + 1;
-							}
+							value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 						}
 
 						// Write aggregate result
-						stringstream ss;
-
-						if (proj[i].aggregate_type == ProjectionVar::Count_type)
-						{
-							ss << "\"";
-							ss << count;
-							ss << "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
-						}
-						else if (succ)
-						{
-							if (proj[i].aggregate_type == ProjectionVar::Sum_type
-								|| proj[i].aggregate_type == ProjectionVar::Avg_type)
-							{
-								cout << "numeric_sum.term_value = " << numeric_sum.term_value << endl;
-								ss << numeric_sum.term_value;
-							}
-							else if (proj[i].aggregate_type == ProjectionVar::Min_type)
-							{
-								if (numeric)
-									ss << numeric_min.term_value;
-								else if (datetime)
-									ss << datetime_min.term_value;
-							}
-							else if (proj[i].aggregate_type == ProjectionVar::Max_type)
-							{
-								if (numeric)
-									ss << numeric_max.term_value;
-								else if (datetime)
-									ss << datetime_max.term_value;
-							}
-							else if (proj[i].aggregate_type == ProjectionVar::Sample_type)
-							{
-								ss << sample_result;
-							}
-						}
-						else 	// Failed
-							ss << "";
-
-						if (groupconcat.empty())
-							ss >> new_result0.result.back().str[proj2new[i] - new_result0_id_cols];
-						else
-							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = groupconcat;
+						new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = value;
 					}
 					else if (proj[i].aggregate_type == ProjectionVar::CompTree_type)
 					{
-						if (group2temp.empty()) {
+						if (group2temp.empty() && !one_group) {
 							for (int j = begin; j <= end; j++) {
 								new_result0.result[j].str[proj2new[i] - new_result0_id_cols] = \
 									result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
 									result0Varset).term_value;
 							}
-						} else {
+						} else if (begin <= end) {
 							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = \
 								result0.doComp(proj[i].comp_tree_root, result0.result[begin], result0_id_cols, kvstore, \
 								result0Varset).term_value;
@@ -3475,6 +3184,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					}
 				}
 				begin = end + 1;
+				if (one_group)
+					break;
 			}
 
 			if (temp_result_distinct != NULL)
@@ -3663,6 +3374,112 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 	this->releaseResult();
 }
 
+/**
+	Compute a set function (COUNT, SUM, AVG, MIN, MAX, GROUP_CONCAT or SAMPLE) of an expression 
+	over consecutive rows. Rows for which the expression has no value do not count; SUM and AVG 
+	ignore other values than numbers, MIN and MAX other values than numbers and dates.
+
+	@param proj the set function.
+	@param result the rows.
+	@param begin the first row.
+	@param end the last row.
+	@return the value as a term, empty if there is none.
+*/
+string GeneralEvaluation::computeAggregate(const ProjectionVar &proj, TempResult &result, int begin, int end)
+{
+	Varset result_varset = result.getAllVarset();
+	int id_cols = result.id_varset.getVarsetSize();
+	bool ignored = false, numeric = false, datetime = false;
+	int count = 0;
+	set<string> seen;
+	string text, sample;
+	EvalMultitypeValue acc;
+	acc.term_value = "\"0\"^^<http://www.w3.org/2001/XMLSchema#integer>";
+	acc.deduceTypeValue();
+
+	result.entity_literal_varset = &this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset;
+	for (int j = begin; j <= end; j++)
+	{
+		EvalMultitypeValue val = result.doComp(proj.comp_tree_root, result.result[j], id_cols, kvstore, result_varset);
+		if (val.datatype == EvalMultitypeValue::xsd_boolean && val.term_value.empty() \
+			&& val.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
+			continue;
+		string term = val.getRep();
+		if (proj.distinct && !seen.insert(term).second)
+			continue;
+
+		bool is_numeric = val.datatype == EvalMultitypeValue::xsd_integer || val.datatype == EvalMultitypeValue::xsd_decimal \
+			|| val.datatype == EvalMultitypeValue::xsd_float || val.datatype == EvalMultitypeValue::xsd_double \
+			|| val.datatype == EvalMultitypeValue::xsd_long;
+		bool is_datetime = val.datatype == EvalMultitypeValue::xsd_datetime;
+
+		if (proj.aggregate_type == ProjectionVar::Sum_type || proj.aggregate_type == ProjectionVar::Avg_type)
+		{
+			if (!is_numeric)
+			{
+				ignored = true;
+				continue;
+			}
+			acc = acc + val;
+		}
+		else if (proj.aggregate_type == ProjectionVar::Min_type || proj.aggregate_type == ProjectionVar::Max_type)
+		{
+			if (!is_numeric && !is_datetime)
+				continue;
+			if (!numeric && !datetime)
+				acc = val;
+			numeric = numeric || is_numeric;
+			datetime = datetime || is_datetime;
+			if (numeric && datetime)	// numbers and dates cannot be compared
+				return "";
+			EvalMultitypeValue better = proj.aggregate_type == ProjectionVar::Min_type ? val < acc : val > acc;
+			if (better.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+				acc = val;
+		}
+		else if (proj.aggregate_type == ProjectionVar::Groupconcat_type)
+		{
+			if (count > 0)
+				text += proj.separator;
+			size_t right = term.rfind('"');
+			if (term[0] == '"' && right > 0)
+				text += term.substr(1, right - 1);
+			else if (term[0] == '<')
+				text += term.substr(1, term.length() - 2);
+			else
+				text += term;
+		}
+		else if (proj.aggregate_type == ProjectionVar::Sample_type && count == 0)
+			sample = term;
+
+		count++;
+	}
+	result.entity_literal_varset = NULL;
+
+	switch (proj.aggregate_type)
+	{
+		case ProjectionVar::Count_type:
+			return "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
+		case ProjectionVar::Groupconcat_type:
+			return "\"" + text + "\"";
+		case ProjectionVar::Sample_type:
+			return sample;
+		case ProjectionVar::Min_type:
+		case ProjectionVar::Max_type:
+			return numeric || datetime ? acc.getRep() : "";
+		default:	// SUM, AVG
+			if (count == 0)
+				return ignored ? "" : acc.getRep();
+			if (proj.aggregate_type == ProjectionVar::Avg_type)
+			{
+				EvalMultitypeValue divisor;
+				divisor.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
+				divisor.deduceTypeValue();
+				acc = acc / divisor;
+			}
+			return acc.getRep();
+	}
+}
+
 void GeneralEvaluation::releaseResult()
 {
 	if (this->temp_result == NULL)
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index 50bdf75..ea391b9 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -135,6 +135,7 @@ class GeneralEvaluation
 		TempResultSet* queryEvaluation(int dep);
 
 		void getFinalResult(ResultSet &ret_result);
+		std::string computeAggregate(const ProjectionVar &proj, TempResult &result, int begin, int end);
 		void releaseResult();
 
 		void prepareUpdateTriple(GroupPattern &update_pattern, TripleWithObjType *&update_triple, TYPE_TRIPLE_NUM &update_triple_num);
diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index c9ea97e..6155b97 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -873,6 +873,29 @@ bool QueryTree::checkAtLeastOneAggregateFunction()
 	return false;
 }
 
+/**
+	@return whether COUNT, SUM, AVG, MIN, MAX, GROUP_CONCAT or SAMPLE is selected.
+*/
+bool QueryTree::checkAtLeastOneSetFunction()
+{
+	for (const ProjectionVar &proj : this->projection)
+		switch (proj.aggregate_type)
+		{
+			case ProjectionVar::Count_type:
+			case ProjectionVar::Sum_type:
+			case ProjectionVar::Avg_type:
+			case ProjectionVar::Min_type:
+			case ProjectionVar::Max_type:
+			case ProjectionVar::Groupconcat_type:
+			case ProjectionVar::Sample_type:
+				return true;
+			default:
+				break;
+		}
+
+	return false;
+}
+
 bool QueryTree::checkAtLeastOneCompTree()
 {
 	for (int i = 0; i < (int)this->projection.size(); i++)
diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index 13cc757..426b9b4 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -199,6 +199,7 @@ public:
 
 	bool checkWellDesigned();
 	bool checkAtLeastOneAggregateFunction();
+	bool checkAtLeastOneSetFunction();
 	bool checkAtLeastOneCompTree();
 	bool checkSelectAggregateFunctionGroupByValid();
 
-- 
2.43.0


From ce0849ef3c9234c277ee5229a636d6be8407a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 058/149] fix: COUNT(DISTINCT *) and SELECT DISTINCT with
 aggregates see all solutions

---
 Parser/QueryParser.cpp      |  2 ++
 Query/GeneralEvaluation.cpp | 36 ++++++++++++++++++++++++------------
 Query/GeneralEvaluation.h   |  1 +
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 5d2bf35..f254d1c 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -385,6 +385,8 @@ void QueryParser::parseSelectAggregateFunction(SPARQLParser::ExpressionContext *
 			tmp = aggCtx->children[2]->getText();
 			transform(tmp.begin(), tmp.end(), tmp.begin(), ::toupper);
 			proj_var.distinct = aggCtx->children[2]->children.size() == 0 && tmp == "DISTINCT";
+			if (proj_var.distinct && proj_var.aggregate_var == "*")
+				query_tree_ptr->setProjectionAsterisk();	// needs the values of all variables
 			proj_var.var = varCtx->getText();
 		}
 		else
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 40e36b7..f73d821 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -321,7 +321,7 @@ bool GeneralEvaluation::doQuery()
 		this->bgp_query_total = make_shared<BGPQuery>();
 	addAllTriples(this->query_tree.getGroupPattern());
 	bgp_query_total->EncodeBGPQuery(kvstore, vector<string>(), \
-			this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
+			this->checkDistinctBGP());
 
 	this->rewriting_evaluation_stack.clear();
 	this->rewriting_evaluation_stack.emplace_back();
@@ -385,6 +385,17 @@ bool GeneralEvaluation::checkLimitPushdown()
 	return query_tree.getProjectionModifier() != QueryTree::Modifier_Distinct || !query_tree.getOrderVarVector().empty();
 }
 
+/**
+	Whether BGPs may leave out repeated solutions: SELECT DISTINCT only removes repeated rows 
+	of the answer, so aggregates still have to be computed over all solutions.
+
+	@return whether repeated solutions do not matter.
+*/
+bool GeneralEvaluation::checkDistinctBGP()
+{
+	return query_tree.getProjectionModifier() == QueryTree::Modifier_Distinct && !query_tree.checkAtLeastOneAggregateFunction();
+}
+
 TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 {
 	// If ASK query, and only one BGP, check if every triple consists of all constants
@@ -515,7 +526,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					query_info.limit_ = true;
 					query_info.limit_num_ = this->query_tree.getLimit() + this->query_tree.getOffset();
 				}
-				query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
+				query_info.is_distinct_ = this->checkDistinctBGP();
 				query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
 				for(auto order_item:this->query_tree.getOrderVarVector())
 					query_info.ordered_by_expressions_->push_back(order_item);
@@ -618,7 +629,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					bool curr_exist;
 					for (size_t k = 0; k < bgp_query_vec.size(); k++)
 					{
-						curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
+						curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->checkDistinctBGP());
 						encode_constant_exist[k] = curr_exist;
 					}
 					#endif
@@ -919,7 +930,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						total_encode_varset.insert(total_encode_varset.end(), encode_varset[k].begin(), encode_varset[k].end());
 					for (size_t k = 0; k < bgp_query_vec.size(); k++)
 					{
-						bool curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
+						bool curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->checkDistinctBGP());
 						encode_constant_exist[k] = curr_exist;
 					}
 					#endif
@@ -949,7 +960,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						query_info.limit_num_ = this->query_tree.getLimit() + this->query_tree.getOffset();
 					}
 
-					query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
+					query_info.is_distinct_ = this->checkDistinctBGP();
 
 					query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
 					for(auto order_item:this->query_tree.getOrderVarVector())
@@ -1501,12 +1512,6 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 			int result0_size = (int)result0.result.size();
 			vector<int> group2temp;
 
-			if (!this->query_tree.getGroupByVarset().empty())
-			{
-				group2temp = this->query_tree.getGroupByVarset().mapTo(result0.getAllVarset());
-				result0.sort(0, result0_size - 1, group2temp);
-			}
-
 			TempResultSet *temp_result_distinct = NULL;
 			vector<int> group2distinct;
 
@@ -1515,6 +1520,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				{
 					temp_result_distinct = new TempResultSet();
 
+					// sorts the rows by all variables, so comes before sorting them by group
 					this->temp_result->doDistinct1(*temp_result_distinct);
 					group2distinct = this->query_tree.getGroupByVarset().mapTo(temp_result_distinct->results[0].getAllVarset());
 					temp_result_distinct->results[0].sort(0, (int)temp_result_distinct->results[0].result.size() - 1, group2distinct);
@@ -1522,6 +1528,12 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					break;
 				}
 
+			if (!this->query_tree.getGroupByVarset().empty())
+			{
+				group2temp = this->query_tree.getGroupByVarset().mapTo(result0.getAllVarset());
+				result0.sort(0, result0_size - 1, group2temp);
+			}
+
 			int result0_id_cols = result0.id_varset.getVarsetSize();
 			int new_result0_id_cols = new_result0.id_varset.getVarsetSize();
 			int new_result0_str_cols = new_result0.str_varset.getVarsetSize();
@@ -3210,7 +3222,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 
 			// Variables that are only sorted by do not make rows distinct
 			Varset projected = this->query_tree.getProjectionVarset();
-			this->temp_result->doDistinct1(*new_temp_result, this->query_tree.checkProjectionAsterisk() ? NULL : &projected);
+			this->temp_result->doDistinct1(*new_temp_result, projected.empty() ? NULL : &projected);
 
 			this->temp_result->release();
 			delete this->temp_result;
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index ea391b9..725e7df 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -132,6 +132,7 @@ class GeneralEvaluation
 
 		unsigned getFilterLimit();
 		bool checkLimitPushdown();
+		bool checkDistinctBGP();
 		TempResultSet* queryEvaluation(int dep);
 
 		void getFinalResult(ResultSet &ret_result);
-- 
2.43.0


From 392f305601a1f1d7f79816675f9bf0a4e6bb2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 059/149] fix: ASK evaluates constant triples as patterns; a
 subquery with aggregates computes them

---
 Query/GeneralEvaluation.cpp | 49 ++-----------------------------------
 1 file changed, 2 insertions(+), 47 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index f73d821..9dd8ad8 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -398,49 +398,6 @@ bool GeneralEvaluation::checkDistinctBGP()
 
 TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 {
-	// If ASK query, and only one BGP, check if every triple consists of all constants
-	// If so, set a special result so that getFinalResult will know
-	if (this->query_tree.getQueryForm() == QueryTree::Ask_Query)
-	{
-		bool singleBGP = true, allConstants = true;
-		vector<Triple> triple_vt;
-		for (unsigned i = 0; i < this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size(); i++)
-		{
-			// TODO: this is problematic. Even if all are Pattern_type, could still have multiple BGPs (not coalescable)
-			if (this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].type \
-				!= GroupPattern::SubGroupPattern::Pattern_type)
-			{
-				singleBGP = false;
-				break;
-			}
-			// Check if the triple consists of all constants
-			if (this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.subject.value[0] == '?' \
-				|| this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.predicate.value[0] == '?' \
-				|| this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.object.value[0] == '?')
-			{
-				allConstants = false;
-				break;
-			}
-			triple_vt.push_back(Triple(this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.subject.value, \
-				this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.predicate.value, \
-				this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.object.value));
-		}
-		if (singleBGP && allConstants)
-		{
-			// Check if these constant triples exist in database
-			bool exist = BGPQuery::CheckConstBGPExist(triple_vt, kvstore);
-			// Set a special result (indicates true/false) 
-			TempResultSet *result = new TempResultSet();
-			(*result).results.push_back(TempResult());
-			(*result).results[0].result.emplace_back();
-			if (exist)
-				(*result).results[0].result[0].str.push_back("true");
-			else
-				(*result).results[0].result[0].str.push_back("false");
-			return result;
-		}
-	}
-
 	GroupPattern group_pattern;
 
 	// Check well-designed (TODO: check at every depth, now only check once) //
@@ -1255,7 +1212,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		{ 
             QueryTree& sub_query=group_pattern.sub_group_pattern[i].subquery;
             if(sub_query.getOffset()==0&&sub_query.getLimit()==-1&&sub_query.getGroupByVarset().empty()&&sub_query.getOrderVarVector().empty() \
-				&& sub_query.getProjectionModifier() == QueryTree::Modifier_None)
+				&& sub_query.getProjectionModifier() == QueryTree::Modifier_None \
+				&& !sub_query.checkAtLeastOneAggregateFunction() && !sub_query.checkAtLeastOneCompTree())
 			{
                 cout<<"### Subtree (simp.) print start###\n";
 		    	sub_query.getGroupPattern().print(0);
@@ -3373,9 +3331,6 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 			for (int i = 0; i < (int)this->temp_result->results.size(); i++)
 				if (!this->temp_result->results[i].result.empty())
 				{
-					if (this->temp_result->results[i].result[0].str.size() == 1 \
-						&& this->temp_result->results[i].result[0].str[0] == "false")
-						continue;
 					ret_result.answer[0][0] = "\"true\"^^<http://www.w3.org/2001/XMLSchema#boolean>";
 					break;
 				}
-- 
2.43.0


From 1490bf3bc37f23f4216af78d0022000fce44643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 060/149] fix: a subquery hides the variables it does not
 select, keeps unbound ones unbound and joins on predicates

---
 Parser/QueryParser.cpp      |  2 +-
 Query/GeneralEvaluation.cpp | 30 ++++++++++++++++++++++++++--
 Query/QueryTree.cpp         | 14 +++++++++++--
 Query/QueryTree.h           | 16 +++++++++++----
 Query/ResultSet.cpp         | 40 +++++++++++++++++--------------------
 Query/ResultSet.h           |  2 +-
 6 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index f254d1c..7c206b1 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -898,7 +898,7 @@ antlrcpp::Any QueryParser::visitSubSelect(SPARQLParser::SubSelectContext *ctx, \
     new_parser.visitSubSelect_inner(ctx);
     if(!group_pattern.getLastSubquery().checkProjectionAsterisk()){
         QueryTreeRelabeler qtr("_aaaaaaaaaaaa");
-        qtr.excluding=group_pattern.getLastSubquery().getResultProjectionVarset();
+        qtr.excluding=group_pattern.getLastSubquery().getProjectionVarset();
         for(int i=1;i<=12;i++) qtr.suffix[i]+=rand()%26;
         group_pattern.getLastSubquery().relabel(qtr);
     }
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 9dd8ad8..55f0ce1 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1224,6 +1224,30 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				this->rewriting_evaluation_stack.back().result = NULL;
 				this->rewriting_evaluation_stack[dep].result = result;
 				TempResultSet *temp = queryEvaluation(dep + 1); //TODO: IF parent IS NOT NULL, IT SHOULD BE JOINED
+                if (!sub_query.checkProjectionAsterisk())
+                {
+                    Varset proj = sub_query.getProjectionVarset();
+                    TempResultSet *projected = new TempResultSet();
+                    // One by one, so that a variable without value stays out of the varset of its solutions
+                    for (TempResult &part : temp->results)
+                    {
+                        TempResultSet single, single_projected;
+                        Varset part_proj = proj * part.getAllVarset();
+                        single.results.push_back(TempResult());
+                        single.results[0].id_varset = part.id_varset;
+                        single.results[0].str_varset = part.str_varset;
+                        single.results[0].result.swap(part.result);
+                        single.doProjection1(part_proj, single_projected, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+                        part.result.swap(single.results[0].result);
+                        projected->results.push_back(TempResult());
+                        projected->results.back().id_varset = single_projected.results[0].id_varset;
+                        projected->results.back().str_varset = single_projected.results[0].str_varset;
+                        projected->results.back().result.swap(single_projected.results[0].result);
+                    }
+                    temp->release();
+                    delete temp;
+                    temp = projected;
+                }
                 cout<<"<SIMP> number of results: ";
                 for(std::vector<TempResult>::iterator it=temp->results.begin();it!=temp->results.end(); it++) {
                     Varset rvs=it->getAllVarset();
@@ -1263,7 +1287,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
                 tmp_GeneralEvaluation.getFinalResult(*temp_rs);
                 cout<<"<NONSIMP> number of results: "<<temp_rs->ansNum<<endl;
                 TempResultSet *temp_trs = new TempResultSet();
-                temp_trs->results.push_back(temp_rs->to_tempresult());
+                temp_rs->to_tempresults(*temp_trs);
 				if (result->results.empty())
 		    	{
 		    		delete result;
@@ -3724,8 +3748,10 @@ void GeneralEvaluation::fillCandList(vector<shared_ptr<BGPQuery>>& bgp_query_vec
 				} else {
 					pos = Varset(basic_query_encode_varset[k]).mapTo(last_result->results[t].str_varset)[0];
 					if (pos != -1) {
+						bool is_predicate = bgp_query_vec[j]->get_var_type_by_id(bgp_query_vec[j]->get_var_id_by_name(basic_query_encode_varset[k])) \
+							== VarDescriptor::VarType::Predicate;
 						for (int l = 0; l < (int)result.size(); l++)
-							result_set.insert(kvstore->getIDByString(result[l].str[pos]));
+							result_set.insert(is_predicate ? kvstore->getIDByPredicate(result[l].str[pos]) : kvstore->getIDByString(result[l].str[pos]));
 					}
 					else if (!result.empty())
 						unbound = true;
diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 6155b97..9e63a5a 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -276,8 +276,18 @@ void GroupPattern::getVarset()
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Subquery_type)
 		{
 			this->sub_group_pattern[i].subquery.getGroupPattern().getVarset();
-			this->group_pattern_resultset_minimal_varset += sub_group_pattern[i].subquery.getGroupPattern().group_pattern_resultset_minimal_varset;
-			this->group_pattern_resultset_maximal_varset += sub_group_pattern[i].subquery.getGroupPattern().group_pattern_resultset_maximal_varset;
+			// Only the variables that the subquery selects are seen outside
+			QueryTree &subquery = sub_group_pattern[i].subquery;
+			if (subquery.checkProjectionAsterisk())
+			{
+				this->group_pattern_resultset_minimal_varset += subquery.getGroupPattern().group_pattern_resultset_minimal_varset;
+				this->group_pattern_resultset_maximal_varset += subquery.getGroupPattern().group_pattern_resultset_maximal_varset;
+			}
+			else
+			{
+				this->group_pattern_resultset_minimal_varset += subquery.getProjectionVarset() * subquery.getGroupPattern().group_pattern_resultset_minimal_varset;
+				this->group_pattern_resultset_maximal_varset += subquery.getProjectionVarset();
+			}
 			this->group_pattern_subject_object_maximal_varset += sub_group_pattern[i].subquery.getGroupPattern().group_pattern_subject_object_maximal_varset;
 			this->group_pattern_predicate_maximal_varset += sub_group_pattern[i].subquery.getGroupPattern().group_pattern_predicate_maximal_varset;
 		}
diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index 426b9b4..552c976 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -342,6 +342,8 @@ public:
 	void relabel(QueryTreeRelabeler& qtr){
 		qtr.relabel(varset);
 		qtr.relabel_safe(val);
+		qtr.relabel_safe(path_args.src);
+		qtr.relabel_safe(path_args.dst);
 		for(std::vector<CompTreeNode>::iterator it=children.begin(); it!=children.end(); it++)
 			it->relabel(qtr);
 	};
@@ -357,7 +359,7 @@ public:
 	std::string var;
 	Varset varset;
 	//@@ Bind(const Bind& _b): str(_b.str), var(_b.var), varset(_b.varset){}
-	void relabel(QueryTreeRelabeler& qtr){qtr.relabel(var); qtr.relabel(varset);}
+	void relabel(QueryTreeRelabeler& qtr){qtr.relabel(var); qtr.relabel(varset); bindExpr.relabel(qtr);}
 };
 
 class GroupPattern::SubGroupPattern
@@ -432,15 +434,21 @@ public:
 	ProjectionVar():aggregate_type(None_type), distinct(false){}
 	//@@ ProjectionVar(const ProjectionVar& _pv):aggregate_type(_pv.aggregate_type), var(_pv.var), aggregate_var(_pv.aggregate_var), distinct(_pv.distinct), path_args(_pv.path_args), comp_tree_root(_pv.comp_tree_root), builtin_args(_pv.builtin_args){}
 	void relabel(QueryTreeRelabeler& qtr){
-		// if(aggregate_type != ProjectionVar::None_type) qtr.relabel(var);
+		// The names of the results are kept, the ones inside an expression follow the subquery's variables
+		if (aggregate_type != ProjectionVar::None_type) relabel_expression(qtr);
 	}
 	void relabel_full(QueryTreeRelabeler& qtr){
 		qtr.relabel(var);
 		if (aggregate_type != ProjectionVar::None_type) {
-			qtr.relabel(aggregate_var);
-			comp_tree_root.relabel(qtr);
+			relabel_expression(qtr);
 		}
 	}
+	void relabel_expression(QueryTreeRelabeler& qtr){
+		qtr.relabel_safe(aggregate_var);
+		qtr.relabel_safe(path_args.src);
+		qtr.relabel_safe(path_args.dst);
+		comp_tree_root.relabel(qtr);
+	}
 };
 
 class Order
diff --git a/Query/ResultSet.cpp b/Query/ResultSet.cpp
index 51a5650..c0ec5d8 100644
--- a/Query/ResultSet.cpp
+++ b/Query/ResultSet.cpp
@@ -773,20 +773,13 @@ ResultSet::getOneRecord()
 	}
 }
 
-TempResult
-ResultSet::to_tempresult()
+void
+ResultSet::to_tempresults(TempResultSet &results)
 {
-	TempResult tmp;
     long long ans_num = max((long long)this->ansNum - this->output_offset, 0LL);
 	if (this->output_limit != -1)
 		ans_num = min(ans_num, (long long)this->output_limit);
 
-	for(int i = 0; i < this->true_select_var_num; i++)
-	{
-        tmp.str_varset.addVar(this->var_name[i]);
-        //cout<<"##VAR##"<<this->var_name[i]<<endl;
-	}
-
 	if (this->useStream)
 		this->resetStream();
 
@@ -801,22 +794,25 @@ ResultSet::to_tempresult()
 
 		if (i >= this->output_offset)
 		{
-            //cout<<"##VALUE##";
-            tmp.result.push_back(TempResult::ResultPair());
-            TempResult::ResultPair& rp=*(tmp.result.end()-1);
+			// A variable without value stays out of the varset of the solution
+			TempResult::ResultPair rp;
+			Varset id_varset, str_varset;
 			for(int j = 0; j < this->true_select_var_num; j++)
 			{
-				if (!this->useStream){
-					rp.str.push_back(Util::node2string(this->answer[i][j].c_str()));
-                    //cout<<","<<this->answer[i][j].c_str();
-				}else{
-					rp.str.push_back(Util::node2string(bp[j].getStr()));
-                    //cout<<";"<<bp[j].getStr();
-                }
+				string value = this->useStream ? string(bp[j].getStr()) : this->answer[i][j];
+				if (value.empty())
+					continue;
+				str_varset.addVar(this->var_name[j]);
+				rp.str.push_back(value);
 			}
-            //cout<<endl;
+			results.results[results.findCompatibleResult(id_varset, str_varset)].result.push_back(rp);
 		}
 	}
 
-	return tmp;
-}
\ No newline at end of file
+	if (results.results.empty())
+	{
+		results.results.push_back(TempResult());
+		for(int j = 0; j < this->true_select_var_num; j++)
+			results.results.back().str_varset.addVar(this->var_name[j]);
+	}
+}
diff --git a/Query/ResultSet.h b/Query/ResultSet.h
index 9decbf5..4470a9a 100644
--- a/Query/ResultSet.h
+++ b/Query/ResultSet.h
@@ -42,7 +42,7 @@ public:
 	std::string to_str();
 	//convert to JSON string
 	std::string to_JSON();
-	TempResult to_tempresult();
+	void to_tempresults(TempResultSet &results);
 	void output(FILE* _fp);		//output all results using Stream
 	void prettyPrint();
 	void setVar(const std::vector<std::string> & _var_names);
-- 
2.43.0


From e7939f1700cd0f9422fa5ce47e5f8cfb80d6a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 061/149] fix: a transaction records only effective changes and
 each version counts their net effect

---
 Database/Database.cpp |  7 +++++++
 Util/Version.cpp      | 31 ++++++++++++++++---------------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index ce23add..29c6836 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3332,6 +3332,13 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		return false;
 	}
 
+	// versions hold effective changes only: writing an existing triple changes nothing (but keeps its locks)
+	if (txn != nullptr && this->exist_triple(_sub_id, _pre_id, _obj_id, txn))
+	{
+		txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		return false;
+	}
+
 	// if this is not a new triple, return directly (in case of no transaction)
 	if (txn == nullptr)
 	{
diff --git a/Util/Version.cpp b/Util/Version.cpp
index cf2481c..978eca2 100644
--- a/Util/Version.cpp
+++ b/Util/Version.cpp
@@ -110,27 +110,28 @@ void Version::get_del_set(VDataSet& del_set) const
 
 void Version::get_version(VDataSet& add_set, VDataSet& del_set) const
 {
-	//print_data();
+	// the net effect of this version: a value may have been added and removed several times
+	map<VData, int> net;
 	for(unsigned i = 4; i < 2*data[1] + 4; i+=2)
 	{
-		VData p = {data[i], data[i+1]};
-		auto del_it = del_set.find(p);
-		if(del_it == del_set.end()){
-			add_set.insert(p);
-		}
-		else del_set.erase(del_it);
+		net[{data[i], data[i+1]}]++;
 	}
-
-
 	for(int i = static_cast<int>(data[0])-1; i > static_cast<int>(data[0])-1-2*static_cast<int>(data[2]); i-=2)
 	{
-		VData p = {data[i], data[i-1]};
-		auto add_it = add_set.find(p);
-		if(add_it == add_set.end())
+		net[{data[i], data[i-1]}]--;
+	}
+	for(auto &it: net)
+	{
+		if(it.second > 0)
+		{
+			if(del_set.erase(it.first) == 0)
+				add_set.insert(it.first);
+		}
+		else if(it.second < 0)
 		{
-			del_set.insert(p);
-		} 
-		else add_set.erase(add_it);
+			if(add_set.erase(it.first) == 0)
+				del_set.insert(it.first);
+		}
 	}
 }
 
-- 
2.43.0


From d55dafdd865ed877c1ff2caa6c5f44db94c04ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 062/149] fix: emptying the database does not reset the IDs
 transactions hold

---
 Database/Database.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 29c6836..da3b84c 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3407,6 +3407,13 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		return false;
 	}
 
+	// versions hold effective changes only: removing an absent triple changes nothing (but keeps its locks)
+	if (txn != nullptr && !this->exist_triple(_sub_id, _pre_id, _obj_id, txn))
+	{
+		txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		return false;
+	}
+
 	if (txn == nullptr)
 	{
 		bool _exist_triple = this->exist_triple(_sub_id, _pre_id, _obj_id, txn);
@@ -3669,11 +3676,6 @@ bool Database::remove(std::string _rdf_file, bool _is_restore, shared_ptr<Transa
 	cout << "remove rdf triples done." << endl;
 	cout << "removed triples num: " << success_num << endl;
 
-	// if(this->vstree->isEmpty())
-	if (this->triples_num == 0)
-	{
-		this->resetIDinfo();
-	}
 	this->kvstore->set_if_single_thread(false);
 	return true;
 }
@@ -3784,13 +3786,7 @@ Database::remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num,
 		this->stringindex->disable(vertices, true);
 		this->stringindex->disable(predicates, false);
 	}
-	// BETTER+TODO:this will require us to lock all when remove process not ends(in multiple threads cases)
-	// An considerable idea is to check if empty after every triple removed
-	// if(this->vstree->isEmpty())
-	if (this->triples_num == 0)
-	{
-		this->resetIDinfo();
-	}
+	// every node freed its ID as it went: no reset here, transactions may hold IDs of their own
 
 	return valid_num;
 }
-- 
2.43.0


From 2cf1232cf0b249e93c01096e7f0a94fbf95b9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 063/149] fix: a second checkpoint does not free the IDs of
 removed predicates again

---
 Database/Database.cpp    | 4 ----
 Database/Txn_manager.cpp | 5 +++++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index da3b84c..0c3943a 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3902,10 +3902,6 @@ Database::batch_remove(std::string _rdf_file, bool _is_restore, shared_ptr<Trans
 	cout << "remove rdf triples done." << endl;
 	cout << "removed triples num: " << success_num << endl;
 
-	if (this->triples_num == 0)
-	{
-		this->resetIDinfo();
-	}
 	return success_num;
 }
 
diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index 67a8cfd..b69458c 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -297,7 +297,12 @@ void Txn_manager::Checkpoint()
 	//cout << "obj_ids.size(): " << obj_ids.size() << endl;
 	//cout << "obj_literal_ids.size(): " << obj_literal_ids.size() << endl;
  	if(db != nullptr)
+	{
 		db->VersionClean(sub_ids, obj_ids, obj_literal_ids, pre_ids);
+		// these keys are clean now: cleaning them again would free the IDs of their removed nodes twice
+		for(int i = 0; i < 3; i++)
+			DirtyKeys[i].clear();
+	}
 	checkpoint_lock.unlock();
 }
 
-- 
2.43.0


From c6cf974d79a49d5c43f1f39883a10c99a1b02125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 064/149] fix: patterns without variables are checked within
 the transaction

---
 Database/Database.cpp       | 2 ++
 KVstore/KVstore.cpp         | 6 +++---
 KVstore/KVstore.h           | 2 +-
 Query/BGPQuery.cpp          | 4 ++--
 Query/BGPQuery.h            | 2 +-
 Query/GeneralEvaluation.cpp | 4 ++--
 6 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 0c3943a..87ac3d7 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4813,6 +4813,8 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 		{
 			string pre_str = this->kvstore->getPredicateByID(_pre_id);
 			// cerr << "pre_str" << pre_str << endl;
+			if (pre_str == "")
+				continue;
 			this->kvstore->subIDByPredicate(pre_str);
 			this->kvstore->subPredicateByID(_pre_id);
 			this->freePredicateID(_pre_id);
diff --git a/KVstore/KVstore.cpp b/KVstore/KVstore.cpp
index 4eceb11..aaca381 100644
--- a/KVstore/KVstore.cpp
+++ b/KVstore/KVstore.cpp
@@ -5200,13 +5200,13 @@ KVstore::getPreListSize(TYPE_PREDICATE_ID _pre_id)
 // Parameter: If _pre_id = -1, it means to check whether <s, ?p, o> exists or not.
 // Note: quite similar to Database::exist_triple
 bool
-KVstore::existThisTriple(TYPE_ENTITY_LITERAL_ID _sub_id, TYPE_PREDICATE_ID _pre_id, TYPE_ENTITY_LITERAL_ID _obj_id) {
+KVstore::existThisTriple(TYPE_ENTITY_LITERAL_ID _sub_id, TYPE_PREDICATE_ID _pre_id, TYPE_ENTITY_LITERAL_ID _obj_id, shared_ptr<Transaction> txn) {
 	unsigned* _objidlist = nullptr;
 	unsigned _list_len = 0;
 	if (_pre_id == -1)
-		this->getobjIDlistBysubIDpreID(_sub_id, _pre_id, _objidlist, _list_len, true);
+		this->getobjIDlistBysubIDpreID(_sub_id, _pre_id, _objidlist, _list_len, true, txn);
 	else
-		this->getobjIDlistBysubIDpreID(_sub_id, _pre_id, _objidlist, _list_len, true);
+		this->getobjIDlistBysubIDpreID(_sub_id, _pre_id, _objidlist, _list_len, true, txn);
 
 	bool is_exist = false;
 	if (Util::bsearch_int_uporder(_obj_id, _objidlist, _list_len) != INVALID) {
diff --git a/KVstore/KVstore.h b/KVstore/KVstore.h
index 611dbc3..32d83bf 100644
--- a/KVstore/KVstore.h
+++ b/KVstore/KVstore.h
@@ -60,7 +60,7 @@ public:
 	unsigned long getSubListSize(TYPE_ENTITY_LITERAL_ID _sub_id);
 	unsigned long getObjListSize(TYPE_ENTITY_LITERAL_ID _obj_id);
 
-	bool existThisTriple(TYPE_ENTITY_LITERAL_ID _sub_id, TYPE_PREDICATE_ID _pre_id, TYPE_ENTITY_LITERAL_ID _obj_id);
+	bool existThisTriple(TYPE_ENTITY_LITERAL_ID _sub_id, TYPE_PREDICATE_ID _pre_id, TYPE_ENTITY_LITERAL_ID _obj_id, shared_ptr<Transaction> txn = nullptr);
 
 
 		//===============================================================================
diff --git a/Query/BGPQuery.cpp b/Query/BGPQuery.cpp
index fcd8d15..49c9d75 100644
--- a/Query/BGPQuery.cpp
+++ b/Query/BGPQuery.cpp
@@ -543,7 +543,7 @@ bool BGPQuery::EncodeSmallBGPQuery(BGPQuery *big_bgpquery_, KVstore *_kvstore,
 
 
 
-bool BGPQuery::CheckConstBGPExist(const vector<Triple> &triple_vt, KVstore *_kvstore) {
+bool BGPQuery::CheckConstBGPExist(const vector<Triple> &triple_vt, KVstore *_kvstore, shared_ptr<Transaction> txn) {
 	for(unsigned i = 0; i < triple_vt.size(); ++i) {
 		string s_string = triple_vt[i].subject;
 		string p_string = triple_vt[i].predicate;
@@ -577,7 +577,7 @@ bool BGPQuery::CheckConstBGPExist(const vector<Triple> &triple_vt, KVstore *_kvs
 			exit(-1);
 		}
 
-		if(!_kvstore->existThisTriple(s_id, p_id, o_id)) return false;
+		if(!_kvstore->existThisTriple(s_id, p_id, o_id, txn)) return false;
 	}
 	return true;
 }
diff --git a/Query/BGPQuery.h b/Query/BGPQuery.h
index df3bc1c..a1cb2e4 100644
--- a/Query/BGPQuery.h
+++ b/Query/BGPQuery.h
@@ -225,7 +225,7 @@ public:
 	bool EncodeSmallBGPQuery(BGPQuery *big_bgpquery_, KVstore* _kvstore,
 							 const vector<string>& _query_var, bool distinct = false);
 
-	static bool CheckConstBGPExist(const vector<Triple> &triple_vt, KVstore *kvstore);
+	static bool CheckConstBGPExist(const vector<Triple> &triple_vt, KVstore *kvstore, shared_ptr<Transaction> txn = nullptr);
 
 	unsigned get_triple_num();
 	unsigned get_total_var_num();
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 55f0ce1..5cab665 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -647,7 +647,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						#else
 						if (varnum > 0)
 						copyBgpResult2TempResult(bgp_query_vec[j], varnum, temp->results[0]);
-						else if (encode_constant_exist[j] && BGPQuery::CheckConstBGPExist(bgp_query_vec[j]->get_triple_vt(), kvstore))
+						else if (encode_constant_exist[j] && BGPQuery::CheckConstBGPExist(bgp_query_vec[j]->get_triple_vt(), kvstore, txn))
 							temp->results[0].result.emplace_back();	// triples without variables: one empty solution, or none
 						#endif
 
@@ -958,7 +958,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						#else
 						if (varnum > 0)
 						copyBgpResult2TempResult(bgp_query_vec[l], varnum, temp->results[0]);
-						else if (encode_constant_exist[l] && BGPQuery::CheckConstBGPExist(bgp_query_vec[l]->get_triple_vt(), kvstore))
+						else if (encode_constant_exist[l] && BGPQuery::CheckConstBGPExist(bgp_query_vec[l]->get_triple_vt(), kvstore, txn))
 							temp->results[0].result.emplace_back();	// triples without variables: one empty solution, or none
 						#endif
 						
-- 
2.43.0


From 3da6aad9fb218f11cba691c6717d8bc4567b90bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 065/149] fix: isolation levels are numbered as documented

---
 Util/Transaction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Util/Transaction.h b/Util/Transaction.h
index 07b139f..7b8a087 100644
--- a/Util/Transaction.h
+++ b/Util/Transaction.h
@@ -14,9 +14,9 @@ enum class TransactionState{ WAITING = 0, RUNNING, COMMITTED, ABORTED};
 enum class TransactionErrorType {SUB_X = 0, PRE_X, OBJ_X, SUB_S, PRE_S, OBJ_S};
 enum class IsolationLevelType {
 	INVALID = INVALID_TYPE_ID,
-	SERIALIZABLE = 1,      // serializable
+	READ_COMMITTED = 1,    // read committed
 	SNAPSHOT = 2,          // snapshot isolation
-	READ_COMMITTED = 3,    // read committed
+	SERIALIZABLE = 3,      // serializable
 };
 
 class Transaction {
-- 
2.43.0


From 25925eca8f7320f64406fd2fd8101ef0afda2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 066/149] fix: only shared latches that are held are recorded
 and released

---
 KVstore/KVstore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/KVstore/KVstore.cpp b/KVstore/KVstore.cpp
index aaca381..bb4d34f 100644
--- a/KVstore/KVstore.cpp
+++ b/KVstore/KVstore.cpp
@@ -3191,7 +3191,7 @@ KVstore::getobjIDlistBysubIDpreID(TYPE_ENTITY_LITERAL_ID _subid, TYPE_PREDICATE_
 		bool IS_SI = txn->GetIsolationLevelType() == IsolationLevelType::SERIALIZABLE;
 		//check if get shared-lock
 		if(IS_SI)
-			FirstRead = !txn->ReadSetFind(_subid, Transaction::IDType::SUBJECT);
+			FirstRead = !txn->ReadSetFind(_subid, Transaction::IDType::SUBJECT) && !txn->WriteSetFind(_subid, Transaction::IDType::SUBJECT);
 		
 		VDataSet addset, delset;
 		bool _get = this->getValueByKey(this->subID2values, _subid, char_tmp, _len, addset, delset, txn, latched, FirstRead);
@@ -3846,7 +3846,7 @@ KVstore::getsubIDlistByobjIDpreID(TYPE_ENTITY_LITERAL_ID _objid, TYPE_PREDICATE_
 		//check if get shared-lock
 		bool IS_SI = txn->GetIsolationLevelType() == IsolationLevelType::SERIALIZABLE;
 		if(IS_SI)
-			FirstRead = !txn->ReadSetFind(_objid, Transaction::IDType::OBJECT);
+			FirstRead = !txn->ReadSetFind(_objid, Transaction::IDType::OBJECT) && !txn->WriteSetFind(_objid, Transaction::IDType::OBJECT);
 		
 		VDataSet addset, delset;
 		
@@ -4239,7 +4239,7 @@ KVstore::getsubIDlistBypreID(TYPE_PREDICATE_ID _preid, unsigned*& _subidlist, un
 			return false;
 		}
 		
-		if(IS_SI && FirstRead && FirstRead)
+		if(IS_SI && latched && FirstRead)
 			txn->ReadSetInsert(_preid, Transaction::IDType::PREDICATE);
 
 		vector<unsigned> add_sidoidlist, del_sidoidlist;
@@ -4351,7 +4351,7 @@ KVstore::getobjIDlistBypreID(TYPE_PREDICATE_ID _preid, unsigned*& _objidlist, un
 			return false;
 		}
 		
-		if(IS_SI && FirstRead && FirstRead)
+		if(IS_SI && latched && FirstRead)
 			txn->ReadSetInsert(_preid, Transaction::IDType::PREDICATE);
 
 		vector<unsigned> add_sidoidlist, del_sidoidlist;
-- 
2.43.0


From ed50435fa23a3909399e09f94814bd64085550c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 067/149] fix: a serializable transaction that read an old
 version does not write

---
 KVstore/IVArray/IVEntry.cpp | 11 ++++++++++-
 Util/Transaction.cpp        |  1 +
 Util/Transaction.h          |  1 +
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/KVstore/IVArray/IVEntry.cpp b/KVstore/IVArray/IVEntry.cpp
index a322f92..9419421 100644
--- a/KVstore/IVArray/IVEntry.cpp
+++ b/KVstore/IVArray/IVEntry.cpp
@@ -233,6 +233,7 @@ IVEntry::checkheadVersion(TYPE_TXN_ID TID)
 	int n = vList.size();
 	int ret = 0;
 	if((vList[n-1]->get_begin_ts() == INVALID_TS && TID > vList[n-1]->get_end_ts())) ret = -1; //try reading not owned uncommitted version, abort
+	if(vList[n-1]->get_begin_ts() == INVALID_TS && TID == vList[n-1]->get_end_ts()) ret = 1; //owned version
 	if(vList[n-1]->get_begin_ts() <= TID) ret = 1; //try aquiring the lock(maybe failed because new verison is not added in list yet)
 	return ret;
 }
@@ -300,6 +301,14 @@ IVEntry::ReadVersion(VDataSet &AddSet, VDataSet &DelSet, shared_ptr<Transaction>
 				return false;
 			}
 		}
+		if(ret == 0){
+			//an older version is read without a latch, which is serializable only for read-only transactions
+			if(!txn->Get_WriteSet()[(unsigned)Transaction::IDType::SUBJECT].empty()){
+				rwLatch.unlock();
+				return false;
+			}
+			txn->stale_read = true;
+		}
 		getProperVersion(txn->GetTID(), AddSet, DelSet);
 		rwLatch.unlock();
 	}
@@ -438,7 +447,7 @@ IVEntry::GetExclusiveLatch(shared_ptr<Transaction> txn, bool has_read)
 	}
 	else if(txn->GetIsolationLevelType() == IsolationLevelType::SERIALIZABLE)
 	{
-		if(!checkVersion(TID, false)){
+		if(txn->stale_read || !checkVersion(TID, false)){
 			rwLatch.unlock();
 			return 0;
 		}
diff --git a/Util/Transaction.cpp b/Util/Transaction.cpp
index 401519b..1e5eaf0 100644
--- a/Util/Transaction.cpp
+++ b/Util/Transaction.cpp
@@ -7,6 +7,7 @@ Transaction::Transaction(string name, TYPE_TS time, txn_id_t _TID, IsolationLeve
 	this->TID = _TID;
 	this->state = TransactionState::WAITING;
 	this->update_num = 0;
+	this->stale_read = false;
 	this->wait_lock_time = 0; // 1ns
 	this->retry_times = 1; // up to 32ns
 	if(unsigned(_isolation) > 0 && unsigned(_isolation) <= 3) //valid value
diff --git a/Util/Transaction.h b/Util/Transaction.h
index 7b8a087..f64123d 100644
--- a/Util/Transaction.h
+++ b/Util/Transaction.h
@@ -46,6 +46,7 @@ private:
 	int retry_times;
 public:
 	int update_num;
+	bool stale_read; // SERIALIZABLE: an older version than the latest one was read without a latch
 	enum class IDType{SUBJECT, PREDICATE, OBJECT};
 	//error type for aborted transaction. X latched failed or S latched failed.
 	
-- 
2.43.0


From 7f95e6e0a839c6ef0f16ffd764a87fbe161109d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 068/149] fix: a query takes the ID limits of the contents it
 reads, and gives its lock back when it fails

---
 Database/Database.cpp       | 91 +++++++++++++++++++++----------------
 Query/GeneralEvaluation.cpp |  9 +++-
 Query/GeneralEvaluation.h   |  1 +
 3 files changed, 59 insertions(+), 42 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 87ac3d7..af43468 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1723,20 +1723,18 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 {
 	string dictionary_store_path = this->store_path + "/dictionary.dc";
 
-	this->stringindex->SetTrie(this->kvstore->getTrie());
-	GeneralEvaluation general_evaluation(this->kvstore, this->stringindex, this->query_cache, this->csr,
-										 this->pre2num, this->pre2sub, this->pre2obj, this->triples_num,
-										 this->limitID_predicate, this->limitID_literal, this->limitID_entity, txn, this->getfreelist_entity(), this->getentity_num());
 	if (txn != nullptr)
 		cout << "query in transaction............................................" << endl;
 	long tv_begin = Util::get_cur_time();
 
 	// this->query_parse_lock.lock();
 	bool parse_ret = false;
+	QueryParser query_parser;
+	QueryTree query_tree;
 	try
 	{
 		/* code */
-		parse_ret = general_evaluation.parseQuery(_query);
+		parse_ret = GeneralEvaluation::parseQuery(query_parser, query_tree, _query);
 	}
 	catch (const std::runtime_error &e2)
 	{
@@ -1760,20 +1758,58 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 	int success_num = -100;
 	bool need_output_answer = false;
 
-	// Query
-	if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Not_Update)
+	bool is_update = query_tree.getUpdateType() != QueryTree::Not_Update;
+	if (is_update && update_flag == 0)
+	{
+		// if update_flag == 0, means no privilege to do update query, so we throw an error.
+		string exception_msg = "no update prvilege, update query failed.";
+		cout << exception_msg << endl;
+		throw exception_msg;
+	}
+
+	// the lock is held until this function is left, by an exception too
+	struct UpdateLockGuard
+	{
+		pthread_rwlock_t *lock;
+		UpdateLockGuard() : lock(NULL) {}
+		~UpdateLockGuard() { release(); }
+		void release()
+		{
+			if (lock != NULL)
+				pthread_rwlock_unlock(lock);
+			lock = NULL;
+		}
+	} update_lock_guard;
+#ifdef ONLY_READ
+	if (is_update)
+	{
+		cout << "this database is only read";
+		// invalid query because updates are not allowed in ONLY_READ mode
+		return -101;
+	}
+#endif
+	if (txn == nullptr)
 	{
-		// lock_guard<mutex> (this->update_lock);  //when quit this scope the lock will be released
-		// unique_guard<mutex> updateLCK(this->update_lock);
-		// if(!unique_guard.try_lock())
 		// BETTER: use timed lock
-		if (txn == nullptr && pthread_rwlock_tryrdlock(&(this->update_lock)) != 0)
+		if ((is_update ? pthread_rwlock_trywrlock(&(this->update_lock)) : pthread_rwlock_tryrdlock(&(this->update_lock))) != 0)
 		{
+			cout << "unable to " << (is_update ? "write" : "read") << " lock" << endl;
 			return -101;
 		}
-		if (txn == nullptr)
-			cout << "read priviledge of update lock acquired" << endl;
+		update_lock_guard.lock = &(this->update_lock);
+		cout << (is_update ? "write" : "read") << " priviledge of update lock acquired" << endl;
+	}
+
+	// the limits and statistics are those of the contents the query runs on, so they are taken under the lock
+	this->stringindex->SetTrie(this->kvstore->getTrie());
+	GeneralEvaluation general_evaluation(this->kvstore, this->stringindex, this->query_cache, this->csr,
+										 this->pre2num, this->pre2sub, this->pre2obj, this->triples_num,
+										 this->limitID_predicate, this->limitID_literal, this->limitID_entity, txn, this->getfreelist_entity(), this->getentity_num());
+	general_evaluation.getQueryTree() = query_tree;
 
+	// Query
+	if (!is_update)
+	{
 		// copy the string index for each query thread
 		// StringIndex tmpsi = *this->stringindex;
 		// tmpsi.emptyBuffer();
@@ -1810,32 +1846,11 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		// general_evaluation.setNeedOutputAnswer();
 
 		// tmpsi.clear();
-		if (txn == nullptr)
-			pthread_rwlock_unlock(&(this->update_lock));
+		update_lock_guard.release();
 	}
 	// Update
 	else
 	{
-		if (update_flag == 0)
-		{
-			// if update_flag == 0, means no privilege to do update query, so we throw an error.
-			string exception_msg = "no update prvilege, update query failed.";
-			cout << exception_msg << endl;
-			throw exception_msg;
-		}
-#ifdef ONLY_READ
-		cout << "this database is only read";
-		// invalid query because updates are not allowed in ONLY_READ mode
-		return -101;
-#endif
-		if (txn == nullptr && pthread_rwlock_trywrlock(&(this->update_lock)) != 0)
-		{
-			cout << "unable to write lock" << endl;
-			return -101;
-		}
-		if (txn == nullptr)
-			cout << "write priviledge of update lock acquired" << endl;
-
 		success_num = 0;
 		TripleWithObjType *update_triple = NULL;
 		TYPE_TRIPLE_NUM update_triple_num = 0;
@@ -1876,10 +1891,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				else
 				{
 					if (txn == nullptr)
-					{
-						pthread_rwlock_unlock(&(this->update_lock));
 						throw "Database::query failed";
-					}
 				}
 
 			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Data)
@@ -1942,8 +1954,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				this->saveDBInfoFile();
 			}
 		}
-		if (txn == nullptr)
-			pthread_rwlock_unlock(&(this->update_lock));
+		update_lock_guard.release();
 	}
 
 	long tv_final = Util::get_cur_time();
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 5cab665..6d838b9 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -261,11 +261,16 @@ GeneralEvaluation::setStringIndexPointer(StringIndex* _tmpsi)
 }
 
 bool GeneralEvaluation::parseQuery(const string &_query)
+{
+	return parseQuery(*this->query_parser, this->query_tree, _query);
+}
+
+bool GeneralEvaluation::parseQuery(QueryParser &query_parser, QueryTree &query_tree, const string &_query)
 {
 	try
 	{
-		this->query_parser->setQueryTree(&(this->query_tree));
-		this->query_parser->SPARQLParse(_query);
+		query_parser.setQueryTree(&query_tree);
+		query_parser.SPARQLParse(_query);
 	}
 	catch (const char *e)
 	{
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index 725e7df..cb8cc6b 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -107,6 +107,7 @@ class GeneralEvaluation
 		~GeneralEvaluation() {}
 
 		bool parseQuery(const std::string &_query);
+		static bool parseQuery(QueryParser &query_parser, QueryTree &query_tree, const std::string &_query);
 		QueryTree& getQueryTree();
 
 		bool doQuery();
-- 
2.43.0


From daa0b81f4d5a9c0db315e4484666dfd4da5de5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 069/149] fix: fix: a snapshot taken during a commit does not
 see part of it

---
 Database/Txn_manager.cpp | 10 ++++++++--
 Database/Txn_manager.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index b69458c..de6fd23 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -145,7 +145,9 @@ inline txn_id_t Txn_manager::ArrangeCommitID()
 txn_id_t Txn_manager::Begin(IsolationLevelType isolationlevel)
 {
 	checkpoint_lock.lockShared();
+	commit_lock.lock();
 	txn_id_t TID = this->ArrangeTID();
+	commit_lock.unlock();
 	if(TID == INVALID_ID)
 	{
 		cout << "TID wrapped, please run garbage clean!" << endl;
@@ -175,10 +177,14 @@ int Txn_manager::Commit(txn_id_t TID)
 		// checkpoint_lock.unlock();
 		return 1;
 	}
-	txn_id_t CID = this->ArrangeCommitID();
-	txn->SetCommitID(CID);
 	if(db != nullptr)
+	{
+		// all keys get the commit ID before a transaction that may see them begins
+		lock_guard<mutex> commit_guard(commit_lock);
+		txn_id_t CID = this->ArrangeCommitID();
+		txn->SetCommitID(CID);
 		db->TransactionCommit(txn);
+	}
 	else
 	{
 		cout << "error! database has been flushed or removed" << endl;
diff --git a/Database/Txn_manager.h b/Database/Txn_manager.h
index 4c18fb0..12f4b46 100644
--- a/Database/Txn_manager.h
+++ b/Database/Txn_manager.h
@@ -38,6 +38,7 @@ private:
 	Latch checkpoint_lock;
 	Latch table_lock;
 	mutex DirtyKeys_lock;
+	mutex commit_lock; // no transaction begins while another one is being committed
 	
 	vector<IDSet> DirtyKeys;
 	atomic<int> committed_num = {0};
-- 
2.43.0


From d88a239486490e74160deaa7677d0d5162463eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 070/149] fix: copying a query tree keeps what its variables
 stand for

---
 Query/QueryTree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index 552c976..251a45a 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -137,6 +137,7 @@ public:
 		group_pattern = _qt.group_pattern;
 		insert_patterns = _qt.insert_patterns;
 		delete_patterns = _qt.delete_patterns;
+		var2type = _qt.var2type;
 	}
 	QueryTree& operator =(const QueryTree& _qt)
 	{
@@ -154,6 +155,7 @@ public:
 		group_pattern = _qt.group_pattern;
 		insert_patterns = _qt.insert_patterns;
 		delete_patterns = _qt.delete_patterns;
+		var2type = _qt.var2type;
 
 		return *this;
 	}
-- 
2.43.0


From 334a8ab23cad9822d319a032c209287ceb01e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 071/149] fix: a backup of an open database holds its unsaved
 changes

---
 Database/Database.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index af43468..05d8816 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4387,6 +4387,10 @@ bool Database::backup()
 
 	cout << "Beginning backup, path is: "<< backup_path << endl;
 
+	// the copy below takes the files, so what is still in memory has to be in them first
+	if (this->if_loaded)
+		this->save();
+
 	string sys_cmd;
 	if (Util::dir_exist(backup_path))
 	{
@@ -4396,9 +4400,6 @@ bool Database::backup()
 	system(sys_cmd.c_str());
 	Util::remove_path(backup_path + '/' + this->update_log);
 
-	// this->vstree->saveTree();
-	this->kvstore->flush();
-
 	this->clear_update_log();
 	string update_log_path = this->store_path + '/' + this->update_log_since_backup;
 	Util::remove_path(update_log_path);
-- 
2.43.0


From 8f330cf5ffa76b2fa8828d6a19d55233173c0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 072/149] fix: a LIMIT is applied to the answer, not to each of
 the patterns still to be joined

---
 Query/GeneralEvaluation.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 6d838b9..3ebd524 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -387,6 +387,23 @@ bool GeneralEvaluation::checkLimitPushdown()
 		return false;
 	if (!query_tree.getGroupByVarset().empty() || query_tree.checkAtLeastOneAggregateFunction())
 		return false;
+
+	// The solutions of several BGPs, or of paths, are still to be joined, so all of them are needed
+	GroupPattern group_pattern = query_tree.getGroupPattern();
+	auto &sub = group_pattern.sub_group_pattern;
+	group_pattern.initPatternBlockid();
+	for (int i = 0; i < (int)sub.size(); i++)
+	{
+		if (sub[i].type != GroupPattern::SubGroupPattern::Pattern_type || sub[i].pattern.kleene)
+			return false;
+		for (int j = 0; j < i; j++)
+			if (sub[i].pattern.subject_object_varset.hasCommonVar(sub[j].pattern.subject_object_varset))
+				group_pattern.mergePatternBlockID(i, j);
+	}
+	for (int i = 1; i < (int)sub.size(); i++)
+		if (group_pattern.getRootPatternBlockID(i) != group_pattern.getRootPatternBlockID(0))
+			return false;
+
 	return query_tree.getProjectionModifier() != QueryTree::Modifier_Distinct || !query_tree.getOrderVarVector().empty();
 }
 
-- 
2.43.0


From d810e854ed6948b6b0d4f807cc775373aeec469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 073/149] fix: a variable used as a node and as a predicate
 joins by term, not by ID

---
 Query/QueryTree.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 9e63a5a..c3cdd90 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -411,7 +411,8 @@ int GroupPattern::getRootPatternBlockID(int x)
 }
 
 /**
-	Merge the two triple blocks containing the triples indexed by x and y.
+	Merge the two triple blocks containing the triples indexed by x and y, unless a variable
+	would be both a node and a predicate in the merged block.
 	
 	@param x the index of a triple to merge.
 	@param y the index of another triple to merge.
@@ -420,6 +421,24 @@ void GroupPattern::mergePatternBlockID(int x, int y)
 {
 	int px = this->getRootPatternBlockID(x);
 	int py = this->getRootPatternBlockID(y);
+	if (px == py)
+		return;
+
+	// a variable that stands for a node in one triple and for a predicate in another has IDs of two kinds
+	Varset node_varset, predicate_varset;
+	for (int i = 0; i < (int)this->sub_group_pattern.size(); i++)
+		if (this->sub_group_pattern[i].type == SubGroupPattern::Pattern_type && !this->sub_group_pattern[i].pattern.kleene)
+		{
+			int root = this->getRootPatternBlockID(i);
+			if (root != px && root != py)
+				continue;
+			node_varset += this->sub_group_pattern[i].pattern.subject_object_varset;
+			if (this->sub_group_pattern[i].pattern.predicate.value[0] == '?')
+				predicate_varset.addVar(this->sub_group_pattern[i].pattern.predicate.value);
+		}
+	if (node_varset.hasCommonVar(predicate_varset))
+		return;
+
 	this->sub_group_pattern[px].pattern.blockid = py;
 }
 
-- 
2.43.0


From 34d817d87a0adcc04afd96e72f42c78e5f86d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 074/149] fix: characters beyond U+FFFF written as escapes are
 stored as UTF-8

---
 Parser/TurtleParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 54096d9..3b93cb0 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -165,10 +165,15 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
-   } else {
+   } else if (code<0x10000) {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    }
    return result;
 }
-- 
2.43.0


From 9c7561adad45e5ac145ad9279c7d525e5f79ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 075/149] fix: the escapes \b, \f and \' of N-Triples are read

---
 Parser/TurtleParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 3b93cb0..6fc1522 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -188,6 +188,9 @@ void TurtleParser::Lexer::lexEscape(std::string& token)
       if (c=='t') { token+='\t'; return; }
       if (c=='n') { token+='\n'; return; }
       if (c=='r') { token+='\r'; return; }
+      if (c=='b') { token+='\b'; return; }
+      if (c=='f') { token+='\f'; return; }
+      if (c=='\'') { token+='\''; return; }
       if (c=='\"') { token+='\"'; return; }
       if (c=='>') { token+='>'; return; }
       if (c=='\\') { token+='\\'; return; }
-- 
2.43.0


From 23903b52c27f8c85d55e570408e2fdaa3a52f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 076/149] fix: loading a double or float beyond the range of
 C++ does not end the build

---
 Parser/RDFParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Parser/RDFParser.cpp b/Parser/RDFParser.cpp
index 12071e5..ca96b97 100644
--- a/Parser/RDFParser.cpp
+++ b/Parser/RDFParser.cpp
@@ -159,6 +159,10 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 							<< "> <" << rawObject << ">): " << errorMsg << endl;
 					continue;
 				}
+				catch (out_of_range& e)
+				{
+					// too large or too small for a C++ double, but valid
+				}
 				if (rawObject.length() == 3 && toupper(rawObject[0]) == 'N' && toupper(rawObject[1]) == 'A'
 					&& toupper(rawObject[2]) == 'N')
 				{
@@ -346,6 +350,10 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						continue;
 					}
+					catch (out_of_range& e)
+					{
+						// too large or too small for a C++ float, but valid
+					}
 					if (rawObject.length() == 3 && toupper(rawObject[0]) == 'N' && toupper(rawObject[1]) == 'A'
 						&& toupper(rawObject[2]) == 'N')
 					{
-- 
2.43.0


From 9f86009ef2301d0ef250b44a343ea7b0d83a3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 077/149] fix: the JSON of a literal whose text holds quotes
 gives its own text, language and datatype

---
 Query/ResultSet.cpp | 94 +++++++--------------------------------------
 1 file changed, 13 insertions(+), 81 deletions(-)

diff --git a/Query/ResultSet.cpp b/Query/ResultSet.cpp
index c0ec5d8..33356aa 100644
--- a/Query/ResultSet.cpp
+++ b/Query/ResultSet.cpp
@@ -392,11 +392,6 @@ ResultSet::to_JSON()
 		this->resetStream();
 
 	const Bstr* bp = NULL;
-	// match ^^<*> string
-	regex dataTypePattern("\\^\\^<(\\S*?)[^>]*>.*?|<.*? />");
-	smatch matchResult;
-	string::const_iterator iterStart;
-	string::const_iterator iterEnd;
 	for(long long i = (!this->useStream ? this->output_offset : 0LL); i < this->ansNum; i++)
 	{
 		if (this->output_limit != -1 && i == this->output_offset + this->output_limit)
@@ -432,86 +427,23 @@ ResultSet::to_JSON()
 					ans_type = "uri";
 					ans_str = Util::clear_angle_brackets(ans_str);
 				}
-				else if (ans_str[0] == '"')
+				else if (ans_str[0] == '"' || ans_str[0] == '\'')
 				{
-					if (ans_str.find("\"^^<") == string::npos)
-					{
-						if (ans_str.find("\"@") != string::npos)
-						{
-							//for language string
-							ans_type = "literal";
-							lang = ans_str.substr(ans_str.rfind("@")+1, ans_str.length());
-							ans_str = ans_str.substr(1, ans_str.rfind('"') - 1);
-						}
-						else
-						{
-							//no has type string
-							ans_type = "literal";
-							ans_str = ans_str.substr(1, ans_str.rfind('"') - 1);
-						}
-					}
-					else
+					// what follows the closing quote, which is the last one: the text may hold quotes itself
+					size_t close = ans_str.rfind(ans_str[0]);
+					string suffix = ans_str.substr(close + 1);
+					ans_type = "literal";
+					if (suffix[0] == '@')
+						lang = suffix.substr(1);
+					else if (suffix.compare(0, 3, "^^<") == 0)
 					{
-						
-						if (ans_str[ans_str.length() - 1] == '>')
-						{
-							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
-							// string data_type = ans_str.substr(pos + 4, ans_str.length() - pos - 5);
-							iterStart = ans_str.begin();
-							iterEnd = ans_str.end();
-							while (regex_search(iterStart, iterEnd, matchResult, dataTypePattern))
-							{
-								data_type = matchResult[0];
-								break;
-							}
-							if (data_type.length() > 4)
-							{
-								// remove ^^<>
-								data_type = data_type.substr(3, data_type.length()-4);
-								if (data_type.find("^^<") != string::npos)
-								{
-									data_type = "http://www.w3.org/2001/XMLSchema#string-complete";
-								}
-							}
-							else
-							{
-								data_type = "http://www.w3.org/2001/XMLSchema#string-complete";
-							}
-							ans_str = ans_str.substr(1, pos-1);
-						}
-						else
-						{
-							// the entity value is not complete
-							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
+						ans_type = "typed-literal";
+						if (suffix[suffix.length() - 1] == '>')
+							data_type = suffix.substr(3, suffix.length() - 4);
+						else // the entity value is not complete
 							data_type = "http://www.w3.org/2001/XMLSchema#string-not-complete";
-							ans_str = ans_str.substr(1, pos-1);
-						}
-					}
-				}
-				else if (ans_str[0] == '\'') 
-				{
-					if (ans_str.find("'^^<") == string::npos)
-					{
-						if (ans_str.find("'@") != string::npos)
-						{
-							//for language string
-							ans_type = "literal";
-							lang = ans_str.substr(ans_str.rfind("@")+1, ans_str.length());
-							ans_str = ans_str.substr(1, ans_str.rfind('\'') - 1);
-						}
-						else
-						{
-							//no has type string
-							ans_type = "literal";
-							ans_str = ans_str.substr(1, ans_str.rfind('\'') - 1);
-						}
-					}
-					else
-					{
-						ans_type = "error";
 					}
+					ans_str = close > 0 ? ans_str.substr(1, close - 1) : ans_str.substr(1);
 				}
 				else
 				{
-- 
2.43.0


From a6ccae57ab48998fb505c6578d3fc07304a73eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 078/149] fix: the last part of a file is not read again when
 its length is a multiple of the buffer's

---
 Parser/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 6fc1522..0fb6296 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -46,7 +46,7 @@ bool TurtleParser::Lexer::doRead(char& c)
    while (in) {
       readBufferStart=readBuffer;
       in.read(readBuffer,readBufferSize);
-      if (!in.gcount()) return false;
+      if (!in.gcount()) { readBufferEnd=readBufferStart; return false; }
       readBufferEnd=readBufferStart+in.gcount();
 
       if (readBufferStart<readBufferEnd) {
-- 
2.43.0


From 3ce41ebe177a21c35cf7371c94588696f342da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 079/149] fix: a long string keeps the character that follows a
 quote inside it

---
 Parser/TurtleParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 0fb6296..c1b5820 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -219,14 +219,14 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    // Lex a long string, first """ already consumed
 {
    char c;
+   unsigned quotes=0;
    while (read(c)) {
       if (c=='\"') {
-         if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
-         if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
-         return String;
+         if (++quotes==3) return String;
+         continue;
       }
+      token.append(quotes,'\"');
+      quotes=0;
       if (c=='\\') {
          lexEscape(token);
       } else {
-- 
2.43.0


From 3f3c87d8215c66cf671ebb77267d0303bb094a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 080/149] fix: absolute names such as urn:a:b and mailto:x do
 not get the base of the document in front

---
 Parser/TurtleParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index c1b5820..159c4ad 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -402,8 +402,10 @@ void TurtleParser::constructAbsoluteURI(std::string& uri)
    if (base.empty())
       return;
 
-   // Already absolute? XXX fix the check!
-   if (uri.find("://")<10)
+   // Already absolute, i.e., does it start with a scheme?
+   string::size_type colon=uri.find_first_of(":/?#");
+   if ((colon!=string::npos)&&(colon>0)&&(uri[colon]==':')&&isalpha(static_cast<unsigned char>(uri[0]))&&
+      (uri.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.")==colon))
       return;
 
    // Put the base in front
-- 
2.43.0


From 584385fddd9800296e4290e8bed68681fa28c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 081/149] fix: a dot directly behind an integer ends the
 statement

---
 Parser/TurtleParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 159c4ad..248ab54 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -1,5 +1,6 @@
 #include "TurtleParser.h"
 #include <sstream>
+#include <cctype>
 //---------------------------------------------------------------------------
 // RDF-3X
 // (c) 2008 Thomas Neumann. Web site: http://www.mpi-inf.mpg.de/~neumann/rdf3x
@@ -87,7 +88,14 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
       // Dot?
       if (c=='.') {
          token+=c;
-         if (!read(c)) break;
+         bool more=read(c);
+         if (!more||(((c<'0')||(c>'9'))&&(c!='e')&&(c!='E'))) {
+            // Nothing of the number behind the dot, which ends the statement
+            if (more) unread();
+            token.resize(token.size()-1);
+            putBack=Dot;
+            return Integer;
+         }
          // Second number block
          while ((c>='0')&&(c<='9')) {
             token+=c;
-- 
2.43.0


From ce3ee50f7ac69f9c142f6180ccc7352c3bbe24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 082/149] fix: a datatype can be written with the empty prefix

---
 Parser/TurtleParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 248ab54..db6729a 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -652,6 +652,7 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                if (token==Lexer::URI) {
                   // Already parsed
                } else if (token==Lexer::Colon) {
+                  lexer.unget(token,type);
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
-- 
2.43.0


From b01685239393202d0ef0b94bfb25b3d658d1f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 083/149] fix: the base applies to the names of prefixes,
 datatypes and further bases, too

---
 Parser/TurtleParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index db6729a..e7f100b 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -428,8 +428,11 @@ void TurtleParser::parseDirective()
       parseError("directive name expected after '@'");
 
    if (value=="base") {
-      if (lexer.next(base)!=Lexer::URI)
+      std::string newBase;
+      if (lexer.next(newBase)!=Lexer::URI)
          parseError("URI expected after @base");
+      constructAbsoluteURI(newBase);
+      base=newBase;
    } else if (value=="prefix") {
       std::string prefixName;
       Lexer::Token token=lexer.next(prefixName);
@@ -444,6 +447,7 @@ void TurtleParser::parseDirective()
       std::string uri;
       if (lexer.next(uri)!=Lexer::URI)
          parseError("URI expected after @prefix");
+      constructAbsoluteURI(uri);
       prefixes[prefixName]=uri;
    } else {
       parseError("unknown directive @"+value);
@@ -650,7 +654,7 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                string type;
                token=lexer.next(type);
                if (token==Lexer::URI) {
-                  // Already parsed
+                  constructAbsoluteURI(type);
                } else if (token==Lexer::Colon) {
                   lexer.unget(token,type);
                   parseQualifiedName("",type);
-- 
2.43.0


From 97e8fbf76f2e739226375e2789bf3c748728ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 084/149] fix: prefixes named a, true or false can be used

---
 Parser/TurtleParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index e7f100b..edb6234 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -360,6 +360,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
                   if (issep(c)) { unread(); break; }
                   token+=c;
                }
+               if (c==':') return Name; // a prefix, even if it reads like a keyword
                if (token=="a") return A;
                if (token=="true") return True;
                if (token=="false") return False;
-- 
2.43.0


From c7c2ebc8ee513fefc76fca532b1571a4364acbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 085/149] fix: each statement rejected while loading has its
 own line in parse_error.log, which failed_num counts

---
 Parser/RDFParser.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/Parser/RDFParser.cpp b/Parser/RDFParser.cpp
index ca96b97..2fd7100 100644
--- a/Parser/RDFParser.cpp
+++ b/Parser/RDFParser.cpp
@@ -86,7 +86,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 
 			// TODO: get the actual corresponding line
 			if (ofile)
-				ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate << "> <"<< rawObject << ">): " << errorMsg;
+				ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate << "> <"<< rawObject << ">): " << errorMsg << endl;
 			else
 				cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate << "> <"<< rawObject << ">): " << errorMsg << endl;
 			this->_TurtleParser.discardLine();
@@ -121,7 +121,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 					errorMsg = "Object integer value invalid";
 					if (ofile)
 						ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-							<< "> <" << rawObject << ">): " << errorMsg;
+							<< "> <" << rawObject << ">): " << errorMsg << endl;
 					else
 						cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 							<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -132,7 +132,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 					errorMsg = "Object integer out of range";
 					if (ofile)
 						ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-							<< "> <" << rawObject << ">): " << errorMsg;
+							<< "> <" << rawObject << ">): " << errorMsg << endl;
 					else
 						cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 							<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -153,7 +153,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 					errorMsg = "Object double value invalid";
 					if (ofile)
 						ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-							<< "> <" << rawObject << ">): " << errorMsg;
+							<< "> <" << rawObject << ">): " << errorMsg << endl;
 					else
 						cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 							<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -169,7 +169,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 					errorMsg = "Object double value is NaN";
 					if (ofile)
 						ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-							<< "> <" << rawObject << ">): " << errorMsg;
+							<< "> <" << rawObject << ">): " << errorMsg << endl;
 					else
 						cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 							<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -192,7 +192,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object long value invalid";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -203,7 +203,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object long value out of range";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -222,7 +222,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object int value invalid";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 							<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -233,7 +233,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object int value out of range";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -244,7 +244,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object int value out of range";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -263,7 +263,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object short value invalid";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -274,7 +274,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object short value out of range";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -285,7 +285,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object short value out of range";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -304,7 +304,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object byte value invalid";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -315,7 +315,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object byte value out of range";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -326,7 +326,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object byte value out of range";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -344,7 +344,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object float value invalid";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
@@ -360,7 +360,7 @@ int RDFParser::parseFile(TripleWithObjType* _triple_array, int& _triple_num, str
 						errorMsg = "Object float value is NaN";
 						if (ofile)
 							ofile << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
-								<< "> <" << rawObject << ">): " << errorMsg;
+								<< "> <" << rawObject << ">): " << errorMsg << endl;
 						else
 							cout << "Line " << numLines << " (<" << rawSubject << "> <" << rawPredicate \
 								<< "> <" << rawObject << ">): " << errorMsg << endl;
-- 
2.43.0


From a518e4af5b2db9a06aaa5febc28b59754d78a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 086/149] fix: a rejected statement leaves nothing behind for
 the next one

---
 Parser/TurtleParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parser/TurtleParser.h b/Parser/TurtleParser.h
index c7e9daa..e69546f 100644
--- a/Parser/TurtleParser.h
+++ b/Parser/TurtleParser.h
@@ -97,7 +97,7 @@ class TurtleParser
       /// Get the line
       unsigned getLine() const { return line; }
 
-      void discardLine() { char c; while (read(c) && c!='\n'); }
+      void discardLine() { char c; while (read(c) && c!='\n'); putBack=Eof; }
    };
    /// A triple
    struct Triple {
@@ -156,7 +156,7 @@ class TurtleParser
    /// Read the next triple
    bool parse(std::string& subject,std::string& predicate,std::string& object,Type::ID& objectType,std::string& objectSubType);
 
-   void discardLine() { lexer.discardLine(); }
+   void discardLine() { lexer.discardLine(); triples.clear(); triplesReader=0; }
 };
 //---------------------------------------------------------------------------
 #endif
-- 
2.43.0


From 2c988c078b534af42d8763e8296a1c27daeb13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 087/149] fix: ^^ without a datatype is rejected and does not
 take the statement's dot

---
 Parser/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index edb6234..0433f06 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -661,6 +661,8 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
+               } else {
+                  parseError("datatype expected after '^^'");
                }
                if (type=="http://www.w3.org/2001/XMLSchema#string") {
                   objectType=Type::String;
-- 
2.43.0


From 6e792587488a6ff2bc2a407b302abb9fb88827ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 088/149] fix: reading the free memory does not write past its
 buffers

---
 Util/Util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index 5d0c174..2fb3805 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -529,9 +529,9 @@ Util::memoryLeft()
     if(fp == NULL)
         return -1;
 
-    char str[20], tail[3];
+    char str[64], tail[64];
     unsigned num, avail = 0, free = 0, buffer = 0, cache = 0;		//WARN:unsigned,memory cant be too large!
-    while (fscanf(fp, "%s%u%s", str, &num, tail) != EOF)
+    while (fscanf(fp, "%63s%u%63s", str, &num, tail) != EOF)
     {
         if(strcmp(str, "MemAvailable:") == 0)
         	avail = num;
-- 
2.43.0


From 5cf9754648117b1814572a89fb561ed598a5f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 089/149] fix: the statistics of predicates created after
 loading are not read beyond their arrays

---
 Database/Database.cpp      | 57 ++++++++++++++++++++++++++++----------
 Database/Database.h        |  7 +++++
 Database/PlanGenerator.cpp | 12 ++++----
 Database/PlanGenerator.h   |  4 +++
 4 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 05d8816..594cc2e 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -519,6 +519,7 @@ void Database::setPreMap()
 	this->pre2num = new TYPE_TRIPLE_NUM[this->limitID_predicate];
 	this->pre2sub = new TYPE_TRIPLE_NUM[this->limitID_predicate];
 	this->pre2obj = new TYPE_TRIPLE_NUM[this->limitID_predicate];
+	this->pre_map_size = this->limitID_predicate;
 	TYPE_PREDICATE_ID valid = 0, i, t;
 
 	indicators::ProgressBar bar{
@@ -595,6 +596,42 @@ void Database::setPreMap()
 	*/
 }
 
+TYPE_PREDICATE_ID Database::getPreMap(TYPE_TRIPLE_NUM *&num, TYPE_TRIPLE_NUM *&sub, TYPE_TRIPLE_NUM *&obj)
+{
+	std::lock_guard<std::mutex> guard(this->pre_map_lock);
+	TYPE_PREDICATE_ID limit = this->limitID_predicate;
+	if (limit > this->pre_map_size)
+	{
+		TYPE_PREDICATE_ID new_size = std::max(limit, this->pre_map_size * 2);
+		for (TYPE_TRIPLE_NUM **map : {&(this->pre2num), &(this->pre2sub), &(this->pre2obj)})
+		{
+			TYPE_TRIPLE_NUM *new_map = new TYPE_TRIPLE_NUM[new_size]();
+			std::copy(*map, *map + this->pre_map_size, new_map);
+			this->old_pre_maps.push_back(*map);
+			*map = new_map;
+		}
+		this->pre_map_size = new_size;
+	}
+	num = this->pre2num;
+	sub = this->pre2sub;
+	obj = this->pre2obj;
+	return limit;
+}
+
+void Database::clearPreMap()
+{
+	for (TYPE_TRIPLE_NUM *map : this->old_pre_maps)
+		delete[] map;
+	this->old_pre_maps.clear();
+	delete[] this->pre2num;
+	this->pre2num = NULL;
+	delete[] this->pre2sub;
+	this->pre2sub = NULL;
+	delete[] this->pre2obj;
+	this->pre2obj = NULL;
+	this->pre_map_size = 0;
+}
+
 void Database::setStringBuffer()
 {
 	// BETTER: assign according to memory manager
@@ -1545,12 +1582,7 @@ bool Database::unload()
 	// TODO: do we need to update the pre2num if update queries exist??
 	// or we just neglect this, that is ok because pre2num is just used to count
 	// cout << "delete pre2num" << endl;
-	delete[] this->pre2num;
-	this->pre2num = NULL;
-	delete[] this->pre2sub;
-	this->pre2sub = NULL;
-	delete[] this->pre2obj;
-	this->pre2obj = NULL;
+	this->clearPreMap();
 	// cout << "delete entity buffer" << endl;
 	delete this->entity_buffer;
 	this->entity_buffer = NULL;
@@ -1598,12 +1630,7 @@ bool Database::save()
 
 void Database::clear()
 {
-	delete[] this->pre2num;
-	this->pre2num = NULL;
-	delete[] this->pre2sub;
-	this->pre2sub = NULL;
-	delete[] this->pre2obj;
-	this->pre2obj = NULL;
+	this->clearPreMap();
 	delete this->entity_buffer;
 	this->entity_buffer = NULL;
 	delete this->literal_buffer;
@@ -1802,9 +1829,11 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 
 	// the limits and statistics are those of the contents the query runs on, so they are taken under the lock
 	this->stringindex->SetTrie(this->kvstore->getTrie());
+	TYPE_TRIPLE_NUM *query_pre2num, *query_pre2sub, *query_pre2obj;
+	TYPE_PREDICATE_ID query_limitID_predicate = this->getPreMap(query_pre2num, query_pre2sub, query_pre2obj);
 	GeneralEvaluation general_evaluation(this->kvstore, this->stringindex, this->query_cache, this->csr,
-										 this->pre2num, this->pre2sub, this->pre2obj, this->triples_num,
-										 this->limitID_predicate, this->limitID_literal, this->limitID_entity, txn, this->getfreelist_entity(), this->getentity_num());
+										 query_pre2num, query_pre2sub, query_pre2obj, this->triples_num,
+										 query_limitID_predicate, this->limitID_literal, this->limitID_entity, txn, this->getfreelist_entity(), this->getentity_num());
 	general_evaluation.getQueryTree() = query_tree;
 
 	// Query
diff --git a/Database/Database.h b/Database/Database.h
index bc6c3e7..18da2af 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -192,6 +192,13 @@ private:
 	TYPE_TRIPLE_NUM *pre2sub;
 	// pre2objnum mapping
 	TYPE_TRIPLE_NUM *pre2obj;
+	// predicates created after loading are beyond the end of these arrays, so queries take them from getPreMap,
+	// which extends them; replaced arrays are kept until unload as running queries may still read them
+	TYPE_PREDICATE_ID pre_map_size = 0;
+	std::vector<TYPE_TRIPLE_NUM *> old_pre_maps;
+	std::mutex pre_map_lock;
+	TYPE_PREDICATE_ID getPreMap(TYPE_TRIPLE_NUM *&num, TYPE_TRIPLE_NUM *&sub, TYPE_TRIPLE_NUM *&obj);
+	void clearPreMap();
 	// valid: check from minNumPID to maxNumPID
 	TYPE_PREDICATE_ID maxNumPID, minNumPID;
 	void setPreMap();
diff --git a/Database/PlanGenerator.cpp b/Database/PlanGenerator.cpp
index 4c6f2b2..2d41d33 100644
--- a/Database/PlanGenerator.cpp
+++ b/Database/PlanGenerator.cpp
@@ -791,7 +791,7 @@ long long PlanGenerator::CostModelForp2soOptimization(unsigned int node_1_id, un
 		// cout << "true size = " << s_o_list_len << endl;
 		// delete[] s_o_list;
 
-		return max((unsigned long long)1,(unsigned long long)(pre2num[var1_descrip->so_edge_pre_id_[linked_edge_pre_const_index[0]]]/(both_not_linked_const ? 1.0 : 0.5)));
+		return max((unsigned long long)1,(unsigned long long)(PreStat(pre2num, var1_descrip->so_edge_pre_id_[linked_edge_pre_const_index[0]])/(both_not_linked_const ? 1.0 : 0.5)));
 	} else{
 		return max((unsigned long long)1, (unsigned long long)(triples_num/(both_not_linked_const ? 1.0 : 0.5)));
 	}
@@ -836,11 +836,11 @@ vector<shared_ptr<AffectOneNode>> PlanGenerator::CompleteCandidate() {
 			if(pre_const && nei_var){
 				double border = size / (Util::logarithm(2, size) + 1);
 				unsigned pre_id = var_descrip->so_edge_pre_id_[i];
-				if ((!no_candidate) && (double)(pre2num[pre_id]) > border) {
+				if ((!no_candidate) && (double)(PreStat(pre2num, pre_id)) > border) {
 					continue;
 				}
-				if ((var_descrip->so_edge_type_[i] == Util::EDGE_IN && pre2obj[pre_id] > estimate_num) ||
-					(var_descrip->so_edge_type_[i] == Util::EDGE_OUT && pre2sub[pre_id] > estimate_num)) {
+				if ((var_descrip->so_edge_type_[i] == Util::EDGE_IN && PreStat(pre2obj, pre_id) > estimate_num) ||
+					(var_descrip->so_edge_type_[i] == Util::EDGE_OUT && PreStat(pre2sub, pre_id) > estimate_num)) {
 					continue;
 				}
 				unsigned triple_index = var_descrip->so_edge_index_[i];
@@ -969,7 +969,7 @@ void PlanGenerator::AddSatelliteNode(PlanTree* best_plan) {
 
 		// todo: predegree or pre_list; nei must give it a estimatation num
 		if(var_descrip->so_edge_pre_type_[0] == VarDescriptor::PreType::ConPreType)
-			satellitenode_score.emplace_back((double)(pre2num[var_descrip->so_edge_pre_id_[0]]) /
+			satellitenode_score.emplace_back((double)(PreStat(pre2num, var_descrip->so_edge_pre_id_[0])) /
 												var_to_num_map[var_descrip->so_edge_nei_[0]], satellitenode_index);
 		else
 			satellitenode_score.emplace_back((double)(triples_num) / var_to_num_map[var_descrip->so_edge_nei_[0]],
@@ -1028,7 +1028,7 @@ double PlanGenerator::NodeScore(unsigned int var_id) {
 		unsigned nei_id = var_descrip->so_edge_nei_[nei_index];
         if (find(plan_var_vec.begin(), plan_var_vec.end(), nei_id) == plan_var_vec.end()) continue;
 
-		unsigned pre_size = (var_descrip->IsIthEdgePreVar(nei_index) ? max(limitID_predicate == 0 ? 0u : (unsigned)triples_num/limitID_predicate, (unsigned)2) : pre2num[var_descrip->so_edge_pre_id_[nei_index]]);
+		unsigned pre_size = (var_descrip->IsIthEdgePreVar(nei_index) ? max(limitID_predicate == 0 ? 0u : (unsigned)triples_num/limitID_predicate, (unsigned)2) : PreStat(pre2num, var_descrip->so_edge_pre_id_[nei_index]));
 		node_score += PlanGenerator::PARAM_PRE / (double)(pre_size+1);
 	}
 
diff --git a/Database/PlanGenerator.h b/Database/PlanGenerator.h
index 69a6482..d74ace4 100644
--- a/Database/PlanGenerator.h
+++ b/Database/PlanGenerator.h
@@ -32,6 +32,10 @@ private:
 	IDCachesSharePtr & id_caches;
 	TYPE_TRIPLE_NUM triples_num;
 	TYPE_PREDICATE_ID limitID_predicate;
+	// the statistic of a predicate; those created since the query started have none
+	TYPE_TRIPLE_NUM PreStat(const TYPE_TRIPLE_NUM* stat, TYPE_PREDICATE_ID pre_id) const {
+		return pre_id >= 0 && pre_id < limitID_predicate ? stat[pre_id] : 0;
+	}
 	TYPE_ENTITY_LITERAL_ID limitID_literal;
 	TYPE_ENTITY_LITERAL_ID limitID_entity;
 	TYPE_TRIPLE_NUM* pre2num;
-- 
2.43.0


From faedc04dcfcb7fb557c0306315f9534429d145ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 090/149] fix: queries do not read the string index while an
 update extends it

---
 StringIndex/StringIndex.cpp | 9 +++++++++
 StringIndex/StringIndex.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/StringIndex/StringIndex.cpp b/StringIndex/StringIndex.cpp
index fcb264f..7db3ee0 100644
--- a/StringIndex/StringIndex.cpp
+++ b/StringIndex/StringIndex.cpp
@@ -388,6 +388,13 @@ bool StringIndex::randomAccess(unsigned id, string *str, char* &buffer, unsigned
 {
 	if(id < 0) return false;
 
+	struct SharedLatch
+	{
+		Latch &latch;
+		SharedLatch(Latch &_latch) : latch(_latch) { latch.lockShared(); }
+		~SharedLatch() { latch.unlock(); }
+	} shared_latch(this->latch);
+
 	if (is_entity_or_literal)
 	{
 		if (id < Util::LITERAL_FIRST_ID)
@@ -407,6 +414,7 @@ bool StringIndex::randomAccess(unsigned id, string *str, char* &buffer, unsigned
 
 void StringIndex::addRequest(std::vector<StringIndexFile::AccessRequest> *requestVectors, unsigned id, std::string *str, bool is_entity_or_literal)
 {
+	latch.lockShared();
 	if (is_entity_or_literal)
 	{
 		//if(id == 9)
@@ -432,6 +440,7 @@ void StringIndex::addRequest(std::vector<StringIndexFile::AccessRequest> *reques
 	{
 		this->predicate.addRequest(requestVectors[2], id, str);
 	}
+	latch.unlock();
 }
 
 void StringIndex::trySequenceAccess(std::vector<StringIndexFile::AccessRequest>* requestVectors, char* &buffer, unsigned &buffer_size, bool real)
diff --git a/StringIndex/StringIndex.h b/StringIndex/StringIndex.h
index 84ee874..59cd67a 100644
--- a/StringIndex/StringIndex.h
+++ b/StringIndex/StringIndex.h
@@ -117,6 +117,7 @@ class StringIndexFile
 
         inline void addRequest(std::vector<AccessRequest> &request, unsigned id, std::string *str)
         {
+        	if (id >= this->num) return;
         	request.push_back(AccessRequest(id, (*this->index_table)[id].offset, (*this->index_table)[id].length, str));
         }
 
-- 
2.43.0


From 0d380593fe9cded6c2fb04ca4364bddd47bf75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 091/149] fix: refuse a query that is followed by other tokens

---
 Parser/QueryParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 7c206b1..e381a7e 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -42,6 +42,13 @@ void QueryParser::SPARQLParse(const string &query)
 	parser.addErrorListener(&lstnr);
 
 	SPARQLParser::EntryContext *tree = parser.entry();
+	// the entry rule leaves the tokens that follow a complete query unread
+	if (tokens.LA(1) != antlr4::Token::EOF)
+	{
+		antlr4::Token *extra = tokens.LT(1);
+		lstnr.syntaxError(&parser, extra, extra->getLine(), extra->getCharPositionInLine(),
+			"unexpected input '" + extra->getText() + "' after the end of the query", nullptr);
+	}
 	visitEntry(tree);
 	}catch(const runtime_error& e1)
 	{
-- 
2.43.0


From a6fe7a4e8929e7c808eaf2bac02499f443f095d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 092/149] fix: keep the columns of an ordered result in place
 when a variable has no pattern

---
 Query/GeneralEvaluation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 3ebd524..73b9274 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3356,6 +3356,11 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							ret_result.writeToStream(ans_str);
 						}
 					}
+					else
+					{
+						string unbound;	// a variable of no pattern has no value
+						ret_result.writeToStream(unbound);
+					}
 				}
 
 			ret_result.resetStream();
-- 
2.43.0


From 19b9247c403d956ad47bfb0c8c9e838dbdfba110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 093/149] fix: sort grouped rows by a variable of no pattern
 without reading outside the rows

---
 Query/GeneralEvaluation.cpp | 2 ++
 Query/TempResult.cpp        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 73b9274..0fdfce2 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2264,6 +2264,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				{
 					if (proj[i].aggregate_type == ProjectionVar::None_type)
 					{
+						if (proj2temp[i] == -1)
+							continue;	// a variable of no pattern has no value
 						if (group2temp.empty() && !one_group) {
 							for (int j = begin; j <= end; j++) {
 								if (proj2temp[i] < result0_id_cols)
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 5d1119c..d8d08a4 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -127,6 +127,9 @@ int TempResult::compareRow(const ResultPair &x, const int x_id_cols, const vecto
 	{
 		int px = x_pos[i], py = y_pos[i];
 
+		if (px < 0 || py < 0)
+			continue;	// a variable without a column has no value in any row
+
 		if (px < x_id_cols && py < y_id_cols)
 		{
 			if (x.id[px] < y.id[py])
-- 
2.43.0


From d6c95fc9d94d51355242946350771c5c5307e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 094/149] fix: refuse a function call as ORDER BY condition

---
 Parser/QueryParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index e381a7e..3b83aed 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1362,6 +1362,8 @@ antlrcpp::Any QueryParser::visitOrderClause(SPARQLParser::OrderClauseContext *ct
 
 		if (orderCondition->children[0]->children.size() == 0)	// ( 'ASC' | 'DESC' ) brackettedexpression
 			expOrVarCtx = orderCondition->brackettedexpression()->expression();
+		else if (orderCondition->constraint() && !orderCondition->constraint()->brackettedexpression())
+			throw runtime_error("[ERROR]	Function call currently not supported in ORDER BY.");
 		else if (orderCondition->constraint())	// constraint | var
 			expOrVarCtx = orderCondition->constraint()->brackettedexpression()->expression();
 		else
-- 
2.43.0


From 553ade6c4405b029852cf86535f814a7865635ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 095/149] fix: refuse a subquery whose select clause cannot be
 computed

---
 Query/GeneralEvaluation.cpp | 41 +++++++++++++++++++++++++++++++++++++
 Query/GeneralEvaluation.h   |  1 +
 2 files changed, 42 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 0fdfce2..68d07a9 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -298,6 +298,41 @@ QueryTree& GeneralEvaluation::getQueryTree()
 	return this->query_tree;
 }
 
+/**
+	Check that the Select Clause of every subquery can be computed, by the same rules as that of the query.
+
+	@param group_pattern a group graph pattern.
+	@return true if it has no invalid subquery, false otherwise.
+*/
+bool GeneralEvaluation::checkSubqueries(GroupPattern &group_pattern)
+{
+	for (GroupPattern::SubGroupPattern &part : group_pattern.sub_group_pattern)
+	{
+		bool valid = true;
+		if (part.type == GroupPattern::SubGroupPattern::Group_type)
+			valid = checkSubqueries(part.group_pattern);
+		else if (part.type == GroupPattern::SubGroupPattern::Union_type)
+		{
+			for (GroupPattern &branch : part.unions)
+				valid = valid && checkSubqueries(branch);
+		}
+		else if (part.type == GroupPattern::SubGroupPattern::Optional_type || part.type == GroupPattern::SubGroupPattern::Minus_type)
+			valid = checkSubqueries(part.optional);
+		else if (part.type == GroupPattern::SubGroupPattern::Subquery_type)
+		{
+			QueryTree subquery = part.subquery;
+			subquery.getGroupPattern().getVarset();
+			subquery.getGroupByVarset() = subquery.getGroupByVarset() * subquery.getGroupPattern().group_pattern_resultset_maximal_varset;
+			if (subquery.getProjection().empty())
+				valid = subquery.checkProjectionAsterisk() && subquery.getGroupByVarset().empty();
+			valid = valid && subquery.checkSelectAggregateFunctionGroupByValid() && checkSubqueries(subquery.getGroupPattern());
+		}
+		if (!valid)
+			return false;
+	}
+	return true;
+}
+
 bool GeneralEvaluation::doQuery()
 {
 	query_tree.print();
@@ -321,6 +356,12 @@ bool GeneralEvaluation::doQuery()
 		return false;
 	}
 
+	if (!checkSubqueries(this->query_tree.getGroupPattern()))
+	{
+		printf("[ERROR]	The Select Clause of a subquery is invalid.\n");
+		return false;
+	}
+
 	// Gather and encode all triples
 	if (!this->bgp_query_total)
 		this->bgp_query_total = make_shared<BGPQuery>();
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index cb8cc6b..dfbb64c 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -112,6 +112,7 @@ class GeneralEvaluation
 
 		bool doQuery();
 
+		bool checkSubqueries(GroupPattern &group_pattern);
 		void addAllTriples(const GroupPattern &group_pattern);
 
 		void setStringIndexPointer(StringIndex* _tmpsi);
-- 
2.43.0


From 6abfbbf15f5d29ba65db9ff7a548951037f1faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 096/149] fix: read the literal "^^" in a request text

---
 Parser/QueryParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 3b83aed..129a878 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1708,7 +1708,7 @@ string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
 {
 	string baseText = getLiteral(ctx->getText()), suffix, val;
 	size_t sufIdx = baseText.rfind("\"^^");	// "^^" may also occur inside the lexical form
-	if (baseText.empty() || baseText[0] != '"' || sufIdx == string::npos)
+	if (baseText.empty() || baseText[0] != '"' || sufIdx == string::npos || sufIdx == 0 || baseText.back() != '>')
 		return baseText;
 	sufIdx++;
 	suffix = baseText.substr(sufIdx + 2);
-- 
2.43.0


From f91d9f41f308e3284f6788a42282ed3ff2eda874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 097/149] fix: transactions that insert the same new term agree
 on its ID and see its string

---
 Database/Database.cpp | 22 +++++++++++++++++++---
 Database/Database.h   |  2 ++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 594cc2e..0b05f7c 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3291,6 +3291,8 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 
 	// long tv_kv_store_begin = Util::get_cur_time();
 
+	// two transactions that insert the same new term must agree on its ID
+	std::unique_lock<std::mutex> term_id_guard(term_id_lock);
 	TYPE_ENTITY_LITERAL_ID _sub_id = (this->kvstore)->getIDByEntity(_triple.subject);
 	// if(txn != nullptr)
 	// 	cout << "Update in Transaction...................................................." << endl;
@@ -3362,6 +3364,17 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 				_vertices->push_back(_obj_id);
 		}
 	}
+	// another transaction can use the ID from here on, and show its string
+	if (txn != nullptr)
+	{
+		vector<unsigned> new_vertices, new_predicates;
+		if (_is_new_sub) new_vertices.push_back(_sub_id);
+		if (_is_new_obj) new_vertices.push_back(_obj_id);
+		if (_is_new_pre) new_predicates.push_back(_pre_id);
+		this->stringindex->change(new_vertices, *this->kvstore, true);
+		this->stringindex->change(new_predicates, *this->kvstore, false);
+	}
+	term_id_guard.unlock();
 
 	if (txn != nullptr && (this->kvstore)->GetExclusiveLock(_sub_id, _pre_id, _obj_id, txn) == false)
 	{
@@ -3767,9 +3780,12 @@ Database::insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num,
 		}
 	}
 
-	// update string index
-	this->stringindex->change(vertices, *this->kvstore, true);
-	this->stringindex->change(predicates, *this->kvstore, false);
+	// update string index (a transaction has done so for each term)
+	if (txn == nullptr)
+	{
+		this->stringindex->change(vertices, *this->kvstore, true);
+		this->stringindex->change(predicates, *this->kvstore, false);
+	}
 
 	return valid_num;
 }
diff --git a/Database/Database.h b/Database/Database.h
index 18da2af..88ce31b 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -142,6 +142,8 @@ private:
 	mutex getFinalResult_lock;
 	// for allocEntityID
 	mutex allocEntityID_lock;
+	// guards the lookup of a term together with the allocation of its ID
+	mutex term_id_lock;
 	// for allocLiteralID
 	mutex allocLiteralID_lock;
 	// for allocPredicateID
-- 
2.43.0


From 28064ad60e5b0c564b8bb51bd4defebcef99461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 098/149] fix: a clean shutdown of the server saves the loaded
 databases

---
 GRPC/APIUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index e656e10..332cd4c 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -51,8 +51,8 @@ APIUtil::~APIUtil()
         struct timeval now;
         struct timespec str_timeout = {0};
         gettimeofday(&now, NULL);
-        str_timeout.tv_sec = now.tv_sec;
-        str_timeout.tv_nsec = (now.tv_usec + 1000UL*timeout)*1000UL;
+        str_timeout.tv_sec = now.tv_sec + timeout / 1000;
+        str_timeout.tv_nsec = now.tv_usec * 1000UL;
         
         if (pthread_rwlock_timedwrlock(&(it_already_build->second->db_lock), &str_timeout) != 0)
         {
-- 
2.43.0


From 6191b93dd4f1a0988003bc60e996b5ac7876e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 099/149] fix: a JSON request of an unexpected shape does not
 stop the server

---
 Main/ghttp.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 762591e..d60463e 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -3371,7 +3371,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		SLOG_DEBUG("post content: \n" + strJson);
 
 		document.Parse(strJson.c_str());
-		if (document.HasParseError())
+		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format, content=" + strJson;
 			sendResponseMsg(1004, error, "paramcheck ", request, response);
@@ -3397,7 +3397,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			password = document["password"].GetString();
 		}
-		if (document.HasMember("encryption"))
+		if (document.HasMember("encryption") && document["encryption"].IsString())
 		{
 			encryption = document["encryption"].GetString();
 		}
@@ -3648,8 +3648,10 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			}
 			else if (request_type == "POST")
 			{
-				type = document["type"].GetString();
-
+				if (document.HasMember("type") && document["type"].IsString())
+				{
+					type = document["type"].GetString();
+				}
 				if (document.HasMember("op_username") && document["op_username"].IsString())
 				{
 					op_username = document["op_username"].GetString();
@@ -4197,7 +4199,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			if (request_type == "POST")
 			{
-				if (document.HasMember("funInfo"))
+				if (document.HasMember("funInfo") && document["funInfo"].IsObject())
 				{
 					Value &fun_info = document["funInfo"];
 					build_PFNInfo(fun_info, pfn_info);
@@ -4258,7 +4260,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			if (request_type == "POST")
 			{
-				if (document.HasMember("funInfo"))
+				if (document.HasMember("funInfo") && document["funInfo"].IsObject())
 				{
 					Value &fun_info = document["funInfo"];
 					build_PFNInfo(fun_info, pfn_info);
@@ -4413,7 +4415,7 @@ void shutdown_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		SLOG_DEBUG("shutdown post content: \n" + strJson);
 
 		document.Parse(strJson.c_str());
-		if (document.HasParseError())
+		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format,content=" + strJson;
 			sendResponseMsg(1003, error, operation, request, response);
-- 
2.43.0


From a14e102a06598fcd660f826a477cd1853141775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 100/149] fix: upload and download check the password of the
 user

---
 Main/ghttp.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index d60463e..385db04 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -4571,6 +4571,26 @@ void upload_handler(const HttpServer &server, const shared_ptr<HttpServer::Respo
 		formPtr.release();
 		return;
 	}
+	std::string encryption = "0";
+	if (formPtr->find("encryption") != formPtr->end())
+	{
+		encryption = formPtr->at("encryption").second;
+	}
+	error = apiUtil->check_indentity(username, password, encryption);
+	if (error.empty() == false)
+	{
+		apiUtil->update_access_ip_error_num(remote_ip);
+		sendResponseMsg(1001, error, operation, request, response);
+		formPtr.release();
+		return;
+	}
+	if (formPtr->find("file") == formPtr->end())
+	{
+		error = "Upload file can not be empty!";
+		sendResponseMsg(1003, error, operation, request, response);
+		formPtr.release();
+		return;
+	}
 	// filename : filecontent
 	std::pair<std::string, std::string>& fileinfo = formPtr->at("file");
 	if(fileinfo.first.empty())
@@ -4727,6 +4747,13 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		sendResponseMsg(1003, error, operation, request, response);
 		return;
 	}
+	error = apiUtil->check_indentity(username, password, encryption);
+	if (error.empty() == false)
+	{
+		apiUtil->update_access_ip_error_num(remote_ip);
+		sendResponseMsg(1001, error, operation, request, response);
+		return;
+	}
 	error = apiUtil->check_param_value("filepath", filepath);
 	if (error.empty() == false)
 	{
-- 
2.43.0


From 8b09f5f613d9f9b86a4b355a2dad418c18d07ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 101/149] fix: download serves only files of the home directory
 and none of the system database

---
 Main/ghttp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 385db04..f44bddf 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -4767,7 +4767,9 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		std::string cur_path = Util::get_cur_path();
 		SLOG_DEBUG("download file path: " + filepath);
 		SLOG_DEBUG("file exact path: " + exact_path);
-		if (start_with(exact_path, cur_path) == false)
+		// the system database holds the passwords
+		std::string system_path = Util::getExactPath((apiUtil->get_Db_path() + "/system" + apiUtil->get_Db_suffix()).c_str());
+		if (start_with(exact_path, cur_path + "/") == false || (!system_path.empty() && start_with(exact_path, system_path + "/")))
 		{
 			error = "Download file must in the gstore home dir";
 			sendResponseMsg(1005, error, operation, request, response);
-- 
2.43.0


From 3297a7dc01fcd9d8f7d58407da7a296537827f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 102/149] fix: a GET parameter is decoded once, after the URL
 is split

---
 Main/ghttp.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index f44bddf..87712c4 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -226,6 +226,18 @@ string UrlDecode(string &SRC)
 	return (ret);
 }
 
+/**
+ * @description: the url with its parameters still encoded; some connectors encode the whole of it
+ * @param {path} the path of the request
+ * @return {string} the url
+ */
+string decodeUrl(string path)
+{
+	if (path.find('?') == string::npos)
+		return UrlDecode(path);
+	return path;
+}
+
 class Task
 {
 public:
@@ -3352,14 +3364,16 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 	if (request_type == "GET")
 	{
 		url = request->path;
-		url = UrlDecode(url);
+		url = decodeUrl(request->path);
 		SLOG_DEBUG("get url: \n" + url);
 
 		operation = WebUrl::CutParam(url, "operation");
+		operation = UrlDecode(operation);
 		username = WebUrl::CutParam(url, "username");
 		password = WebUrl::CutParam(url, "password");
 		db_name = WebUrl::CutParam(url, "db_name");
 		encryption = WebUrl::CutParam(url, "encryption");
+		encryption = UrlDecode(encryption);
 
 		username = UrlDecode(username);
 		password = UrlDecode(password);
@@ -3531,6 +3545,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			if (request_type == "GET")
 			{
 				disk = WebUrl::CutParam(url, "disk");
+				disk = UrlDecode(disk);
 			}
 			else if (request_type == "POST")
 			{
@@ -3560,6 +3575,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			if (request_type == "GET")
 			{
 				is_backup = WebUrl::CutParam(url, "is_backup");
+				is_backup = UrlDecode(is_backup);
 			}
 			else if (request_type == "POST")
 			{
@@ -3598,6 +3614,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			if (request_type == "GET")
 			{
 				type = WebUrl::CutParam(url, "type");
+				type = UrlDecode(type);
 				op_username = WebUrl::CutParam(url, "op_username");
 				op_username = UrlDecode(op_username);
 				op_password = WebUrl::CutParam(url, "op_password");
@@ -3643,8 +3660,11 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			if (request_type == "GET")
 			{
 				type = WebUrl::CutParam(url, "type");
+				type = UrlDecode(type);
 				op_username = WebUrl::CutParam(url, "op_username");
+				op_username = UrlDecode(op_username);
 				privileges = WebUrl::CutParam(url, "privileges");
+				privileges = UrlDecode(privileges);
 			}
 			else if (request_type == "POST")
 			{
@@ -4159,10 +4179,13 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			if (request_type == "GET")
 			{
 				type = WebUrl::CutParam(url, "type");
+				type = UrlDecode(type);
 				if (type == "2")
 				{
 					ips = WebUrl::CutParam(url, "ips");
+					ips = UrlDecode(ips);
 					ip_type = WebUrl::CutParam(url, "ip_type");
+					ip_type = UrlDecode(ip_type);
 				}
 			}
 			else if (request_type == "POST")
@@ -4401,7 +4424,7 @@ void shutdown_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 	if (request_type == "GET")
 	{
 		url = request->path;
-		url = UrlDecode(url);
+		url = decodeUrl(request->path);
 
 		username = WebUrl::CutParam(url, "username");
 		password = WebUrl::CutParam(url, "password");
@@ -4669,7 +4692,7 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 	if (request_type == "GET")
 	{
 		url = request->path;
-		url = UrlDecode(url);
+		url = decodeUrl(request->path);
 		string ss;
 		ss += "\n------------------------ ghttp-api ------------------------";
 		ss += "\nthread_id: " + thread_id;
@@ -4685,6 +4708,7 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		username = WebUrl::CutParam(url, "username");
 		password = WebUrl::CutParam(url, "password");
 		encryption = WebUrl::CutParam(url, "encryption");
+		encryption = UrlDecode(encryption);
 		filepath = WebUrl::CutParam(url, "filepath");
 		if (encryption.empty()) {
 			encryption = "0";
-- 
2.43.0


From 248ec56d02e55ba9ee60c8d7bddf81f076c294fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 103/149] fix: an empty GET parameter is empty and a stray
 percent sign is read as such

---
 Main/ghttp.cpp  | 2 +-
 Util/WebUrl.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 87712c4..e45afa0 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -207,7 +207,7 @@ string UrlDecode(string &SRC)
 	int ii;
 	for (size_t i = 0; i < SRC.length(); ++i)
 	{
-		if (int(SRC[i]) == 37)
+		if (int(SRC[i]) == 37 && i + 2 < SRC.length() && isxdigit((unsigned char)SRC[i + 1]) && isxdigit((unsigned char)SRC[i + 2]))
 		{
 			sscanf(SRC.substr(i + 1, 2).c_str(), "%x", &ii);
 			ch = static_cast<char>(ii);
diff --git a/Util/WebUrl.cpp b/Util/WebUrl.cpp
index f959e80..91cea73 100644
--- a/Util/WebUrl.cpp
+++ b/Util/WebUrl.cpp
@@ -17,7 +17,7 @@ string WebUrl::CutParam(string url, string param)
 	int index2 = index + 1 + (param + "=").length();
 	string substr = url.substr(index2);
 	int endindex = substr.find("&");
-	if (endindex > 0)
+	if (endindex >= 0)
 	{
 		string substr2 = substr.substr(0, endindex);
 		return substr2;
-- 
2.43.0


From f0ae25de9ef4a5c70e2d98d6fb13d664d95e70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 104/149] fix: refuse names that cannot be IRIs or file names

---
 GRPC/APIUtil.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 332cd4c..51a1901 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1202,6 +1202,21 @@ std::string APIUtil::check_param_value(const string& paramname, const string& va
 		result = "the value of " + paramname + " can not be empty!";
 		return result;
 	}
+	// names become IRIs of the system database, and database names also part of paths and commands
+	if (paramname == "db_name" || paramname == "new_name" || paramname == "op_username")
+	{
+		string illegal = "<>\"{}|^`\\";
+		if (paramname != "op_username")
+			illegal += "/;&$()*?!#~[]'";
+		for (unsigned char c : value)
+		{
+			if (c <= 0x20 || c == 0x7f || illegal.find(c) != string::npos)
+			{
+				result = "the value of " + paramname + " contains an illegal character!";
+				return result;
+			}
+		}
+	}
 	if (paramname == "db_name")
 	{
 		string database = value;
-- 
2.43.0


From 61c766f8b527af0f4f9a05bb8d12709b95cbd734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 105/149] fix: a password with quotes is kept as given

---
 GRPC/APIUtil.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 51a1901..ba29b27 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -10,6 +10,30 @@
 
 
 
+// a literal of a SPARQL text with this content
+static string sparql_literal(const string &content)
+{
+    string result = "\"";
+    for (char c : content)
+    {
+        if (c == '"' || c == '\\') { result += '\\'; result += c; }
+        else if (c == '\n') result += "\\n";
+        else if (c == '\r') result += "\\r";
+        else if (c == '\t') result += "\\t";
+        else result += c;
+    }
+    return result + "\"";
+}
+
+// the content of a plain literal of an answer
+static string literal_content(const string &literal)
+{
+    size_t end = literal.rfind('"');
+    if (literal.empty() || literal[0] != '"' || end == 0)
+        return literal;
+    return literal.substr(1, end - 1);
+}
+
 APIUtil::APIUtil()
 {
     pthread_rwlock_init(&users_map_lock, NULL);
@@ -277,7 +301,7 @@ int APIUtil::initialize(const std::string server_type, const std::string port, c
             for (unsigned int i = 0; i < rs.ansNum; i++)
             {
                 string username = util.clear_angle_brackets(rs.answer[i][0]);
-                string password = util.replace_all(rs.answer[i][1], "\"", "");
+                string password = literal_content(rs.answer[i][1]);
                 struct DBUserInfo *user = new DBUserInfo(username, password);
                 
                 //privilege add
@@ -1505,12 +1529,14 @@ bool APIUtil::user_add(const string& username, const string& password)
         #if defined(DEBUG)
         SLOG_DEBUG("user ready to add.");
         #endif
-        struct DBUserInfo *temp_user = new DBUserInfo(username, password);
-        users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
-        string update = "INSERT DATA {<" + username + "> <has_password> \"" + password + "\".}";
+        string update = "INSERT DATA {<" + username + "> <has_password> " + sparql_literal(password) + ".}";
         result = update_sys_db(update);
         if (result)
+        {
+            struct DBUserInfo *temp_user = new DBUserInfo(username, password);
+            users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
             refresh_sys_db();
+        }
     }
     pthread_rwlock_unlock(&users_map_lock);
     return result;
@@ -1560,7 +1586,7 @@ bool APIUtil::user_pwd_alert(const string& username, const string& password)
         result = update_sys_db(update);
         if (result)
         {
-            update = "INSERT DATA {<" + username + "> <has_password>  \"" + password + "\".}";
+            update = "INSERT DATA {<" + username + "> <has_password>  " + sparql_literal(password) + ".}";
             result = update_sys_db(update) || result;
             refresh_sys_db();
         }
-- 
2.43.0


From f34ce28dffa8ee1c3cafc11533f488bec37f7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 106/149] fix: an update of the system database that fails
 releases its lock and changes nothing

---
 GRPC/APIUtil.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index ba29b27..794e303 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1413,7 +1413,17 @@ bool APIUtil::update_sys_db(string query)
     ResultSet _rs;
     FILE* ofp = stdout;
     string msg;
-	int ret = system_database->query(query, _rs, ofp);
+	int ret = -1;
+    try
+    {
+        ret = system_database->query(query, _rs, ofp);
+    }
+    catch (...)     // a text that cannot be parsed changes nothing, and the lock has to be released
+    {
+        SLOG_ERROR("update failed.");
+        pthread_rwlock_unlock(&system_db_lock);
+        return false;
+    }
     if (ret <= -100)  //select query
     {
         if(ret == -100)
@@ -1581,13 +1591,18 @@ bool APIUtil::user_pwd_alert(const string& username, const string& password)
     iter = users.find(username);
     if(iter != users.end())
     {
-        iter->second->setPassword(password);
-        string update = "DELETE WHERE {<" + username + "> <has_password> ?o.}";
+        // the new password is stored before the old one goes
+        string old_password = iter->second->getPassword();
+        string update = "INSERT DATA {<" + username + "> <has_password>  " + sparql_literal(password) + ".}";
         result = update_sys_db(update);
         if (result)
         {
-            update = "INSERT DATA {<" + username + "> <has_password>  " + sparql_literal(password) + ".}";
-            result = update_sys_db(update) || result;
+            iter->second->setPassword(password);
+            if (password != old_password)
+            {
+                update = "DELETE DATA {<" + username + "> <has_password> " + sparql_literal(old_password) + ".}";
+                update_sys_db(update);
+            }
             refresh_sys_db();
         }
     }
-- 
2.43.0


From 5edb411ec29584b295c6c58c172c1bbec38c9c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 107/149] fix: a page of a log with long lines is read, and an
 empty log releases its lock

---
 GRPC/APIUtil.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 794e303..4a1e342 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -2110,6 +2110,7 @@ void APIUtil::get_access_log(const string &date, int &page_no, int &page_size, s
         in.close();
         if (totalSize == 0)
         {
+            pthread_rwlock_unlock(&access_log_lock);
             dbAccessLogs->setTotalSize(totalSize);
             dbAccessLogs->setTotalPage(totalPage);
             return;
@@ -2129,11 +2130,10 @@ void APIUtil::get_access_log(const string &date, int &page_no, int &page_size, s
         // seek to start line;
         in.open(accessLog.c_str(), ios::in);
         int i_temp;
-        char buf_temp[1024];
         in.seekg(0,ios::beg);
         for (i_temp = 1;i_temp<startLine;i_temp++)
         {
-            in.getline(buf_temp, sizeof(buf_temp));
+            getline(in, line, '\n');
         }
         //APIUtil::Seek_to_line(in, startLine);
         vector<std::string> lines;
@@ -2251,6 +2251,7 @@ void APIUtil::get_query_log(const string &date, int &page_no, int &page_size, st
         in.close();
         if (totalSize == 0)
         {
+            pthread_rwlock_unlock(&query_log_lock);
             dbQueryLogs->setTotalSize(totalSize);
             dbQueryLogs->setTotalPage(totalPage);
             return;
@@ -2270,11 +2271,10 @@ void APIUtil::get_query_log(const string &date, int &page_no, int &page_size, st
         // seek to start line;
         in.open(queryLog.c_str(), ios::in);
         int i_temp;
-        char buf_temp[1024];
         in.seekg(0, ios::beg);
         for (i_temp = 1; i_temp < startLine; i_temp++)
         {
-            in.getline(buf_temp, sizeof(buf_temp));
+            getline(in, line, '\n');
         }
         //APIUtil::Seek_to_line(in, startLine);
         vector<std::string> lines;
@@ -2444,6 +2444,7 @@ void APIUtil::get_transactionlog(int &page_no, int &page_size, struct Transactio
         in.close();
         if (totalSize == 0)
         {
+            pthread_rwlock_unlock(&transactionlog_lock);
             dbQueryLogs->setTotalSize(totalSize);
             dbQueryLogs->setTotalPage(totalPage);
             return;
@@ -2463,11 +2464,10 @@ void APIUtil::get_transactionlog(int &page_no, int &page_size, struct Transactio
         // seek to start line;
         in.open(TRANSACTION_LOG_PATH, ios::in);
         int i_temp;
-        char buf_temp[1024];
         in.seekg(0, ios::beg);
         for (i_temp = 1; i_temp < startLine; i_temp++)
         {
-            in.getline(buf_temp, sizeof(buf_temp));
+            getline(in, line, '\n');
         }
         vector<std::string> lines;
         while (startLine < endLine && getline(in, line, '\n')) {
-- 
2.43.0


From f81495b2c8f1c15974053d230bba798b0f91d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 108/149] fix: a request of a user deleted meanwhile has no
 privilege; failed accesses are counted under the write lock

---
 GRPC/APIUtil.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 4a1e342..15c2573 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -516,7 +516,7 @@ bool APIUtil::ip_check(const string& ip)
 
 bool APIUtil::ip_error_num_check(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
@@ -538,7 +538,7 @@ bool APIUtil::ip_error_num_check(const string& ip)
 
 void APIUtil::update_access_ip_error_num(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
@@ -556,7 +556,7 @@ void APIUtil::update_access_ip_error_num(const string& ip)
 
 void APIUtil::reset_access_ip_error_num(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
@@ -1802,6 +1802,12 @@ bool APIUtil::check_privilege(const std::string& username, const std::string& ty
 	pthread_rwlock_rdlock(&users_map_lock);
 	std::map<std::string, struct DBUserInfo *>::iterator it = users.find(username);
 	int check_result = 0;
+	if (it == users.end())
+	{
+		// deleted since its password was checked
+		pthread_rwlock_unlock(&users_map_lock);
+		return 0;
+	}
 	if(type == "query" || type == "monitor")
 	{
 		pthread_rwlock_rdlock(&(it->second->query_priv_set_lock));
-- 
2.43.0


From 1fe1c0cbb61d8f01f7a81a7437dd5c37c2e37d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 109/149] fix: restore replaces a database only by the complete
 copy of a backup of it

---
 Main/gconsole.cpp | 33 +++++++--------------------------
 Main/ghttp.cpp    | 20 ++++++++++----------
 Main/grestore.cpp | 19 ++++++++-----------
 Main/grpc.cpp     | 18 +++++++++---------
 Util/Util.cpp     | 36 +++++++++++++++++++++++++++++-------
 Util/Util.h       |  1 +
 6 files changed, 64 insertions(+), 63 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 1768013..9514b49 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2238,6 +2238,11 @@ int restore_handler(const vector<string> &args)
 		cout << "Backup Path Error, Restore Failed" << endl;
 		return 0;
 	}
+	if (Util::get_folder_name(backup_path, db_name).empty())
+	{
+		cout << "Backup Path Does not Match DataBase Name, Restore Failed" << endl;
+		return 0;
+	}
 
 	string sparql = "ASK WHERE{<" + db_name + "> <database_status> \"already_built\".}";
 	ResultSet ask_rs;
@@ -2271,34 +2276,10 @@ int restore_handler(const vector<string> &args)
 	// cp -r backups/eg.db_220929114732 .
 	// rm -rf eg.db
 	// mv eg.db_220929114732 eg.db
-	string sys_cmd = "cp -r " + backup_path + " " + db_home;
-	cout << "[" << sys_cmd << "]" << std::endl;
-	if (system(sys_cmd.c_str()))
-	{
-		cout << sys_cmd << " failed. Restore failed." << endl;
-		return -1;
-	}
-
 	string db_path = db_home + "/" + db_name + db_suffix;
-	sys_cmd = "rm -rf " + db_path;
-	cout << "[" << sys_cmd << "]" << std::endl;
-	if (system(sys_cmd.c_str()))
-	{
-		cout << sys_cmd << " failed. Restore failed." << endl;
-		return -1;
-	}
-
-	string folder_name = Util::get_folder_name(backup_path, db_name);
-	// {
-	// 	size_t idx = backup_path.find_last_of('/');
-	// 	path = backup_path.substr(idx + 1);
-	// }
-	sys_cmd = "mv " + db_home + "/" + folder_name + ' ' + db_path;
-	// sys_cmd = "cp -r " + path + ' ' + db_path;
-	cout << "[" << sys_cmd << "]" << std::endl;
-	if (system(sys_cmd.c_str()))
+	if (Util::restore_folder(backup_path, db_home, db_name, db_path) == false)
 	{
-		cout << sys_cmd << " failed. Restore failed." << endl;
+		cout << "copy of " << backup_path << " failed. Restore failed." << endl;
 		return -1;
 	}
 
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index e45afa0..df8db6d 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1967,7 +1967,7 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			return;
 		}
 		string path = backup_path;
-		if (path[path.length() - 1] == '/')
+		if (path.empty() == false && path[path.length() - 1] == '/')
 		{
 			path = path.substr(0, path.length() - 1);
 		}
@@ -1985,6 +1985,12 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			sendResponseMsg(1003, error, operation, request, response);
 			return;
 		}
+		if (Util::get_folder_name(path, db_name).empty())
+		{
+			error = "Backup path does not match database name, restore failed";
+			sendResponseMsg(1003, error, operation, request, response);
+			return;
+		}
 		SLOG_DEBUG("restore database:" + db_name);
 		if (apiUtil->check_already_build(db_name) == false)
 		{
@@ -2025,11 +2031,12 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 
 		// TODO why need lock the database_map?
 		// apiUtil->trywrlock_database_map();
-		int ret = apiUtil->db_copy(path, _db_home);
+		string db_path = _db_home + "/" + db_name + _db_suffix;
+		bool ret = Util::restore_folder(path, _db_home, db_name, db_path);
 		// apiUtil->unlock_database_map();
 
 		// copy failed
-		if (ret == 1)
+		if (ret == false)
 		{
 			string error = "Failed to restore the database. Backup path error";
 			apiUtil->unlock_databaseinfo(db_info);
@@ -2037,13 +2044,6 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 		}
 		else
 		{
-			// remove old folder
-			string db_path = _db_home + "/" + db_name + _db_suffix;
-			Util::remove_path(db_path);
-			// mv backup folder to database folder
-			string folder_name = Util::get_folder_name(path, db_name);
-			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
-			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
 			
 			string success = "Database " + db_name + " restore successfully.";
diff --git a/Main/grestore.cpp b/Main/grestore.cpp
index 78c14e1..fcbabf1 100644
--- a/Main/grestore.cpp
+++ b/Main/grestore.cpp
@@ -121,6 +121,11 @@ main(int argc, char * argv[])
 			cout << "the backup path error, restore failed." << endl;
 			return 0;
 		}
+		if (Util::get_folder_name(backup_path, db_name).empty())
+		{
+			cout << "Backup Path Does not Match DataBase Name, Restore Failed" << endl;
+			return 0;
+		}
 		//system.db
 		Database system_db("system");
 		system_db.load();
@@ -156,21 +161,13 @@ main(int argc, char * argv[])
 			Util::add_backuplog(db_name);
 		}
 
-		int ret = copy(backup_path, _db_home);
-
-
-		if (ret == 1)
+		db_path = _db_home + "/" + db_name + _db_suffix;
+		if (Util::restore_folder(backup_path, _db_home, db_name, db_path) == false)
 		{
+			cout << "the copy of the backup failed, restore failed." << endl;
 			return 0;
 		}
 
-		db_path = _db_home + "/" + db_name + _db_suffix;
-		Util::remove_path(db_path);
-
-		string folder_name = Util::get_folder_name(backup_path, db_name);
-		string sys_cmd = "mv " + _db_home + "/" + folder_name + ' ' + db_path;
-		system(sys_cmd.c_str());
-
 		cout << "Time: " << Util::get_date_time() << endl;
 		cout << "Database " + db_name + " restore done!" << endl;
 
diff --git a/Main/grpc.cpp b/Main/grpc.cpp
index 50b3366..a716141 100644
--- a/Main/grpc.cpp
+++ b/Main/grpc.cpp
@@ -1911,6 +1911,12 @@ try
 			response->Error(StatusOperationFailed, error);
 			return;
 		}
+		if (Util::get_folder_name(path, db_name).empty())
+		{
+			error = "Backup path does not match database name, restore failed";
+			response->Error(StatusParamIsIllegal, error);
+			return;
+		}
 		string database = db_name;
 		SLOG_DEBUG("restore database:" + database);
 		if (apiUtil->check_already_build(db_name) == false)
@@ -1951,10 +1957,11 @@ try
 
 		// TODO why need lock the database_map?
 		// apiUtil->trywrlock_database_map();
-		int ret = apiUtil->db_copy(path, _db_home);
+		string db_path = _db_home + "/" + db_name + _db_suffix;
+		bool ret = Util::restore_folder(path, _db_home, db_name, db_path);
 		// apiUtil->unlock_database_map();
 		// copy failed
-		if (ret == 1)
+		if (ret == false)
 		{
 			error = "Failed to restore the database. Backup path error";
 			apiUtil->unlock_databaseinfo(db_info);
@@ -1962,13 +1969,6 @@ try
 		}
 		else
 		{
-			// remove old folder
-			string db_path = _db_home + "/" + db_name + _db_suffix;
-			Util::remove_path(db_path);
-			// mv backup folder to database folder
-			string folder_name = Util::get_folder_name(path, db_name);
-			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
-			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
 
 			std::string success = "Database " + db_name + " restore successfully.";
diff --git a/Util/Util.cpp b/Util/Util.cpp
index 2fb3805..d35b6d4 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -1181,12 +1181,13 @@ Util::get_backup_time(const string path, const string db_name)
 {
     string _db_name = db_name + Util::getConfigureValue("db_suffix");
     string::size_type position;
-    position = path.find(_db_name);
-
-    if(position == path.npos)
+    position = path.find_last_of('/');
+    string db_folder = position == path.npos ? path : path.substr(position + 1);
+    if (db_folder.compare(0, _db_name.length() + 1, _db_name + "_") != 0)
+        return "";
+    string timestamp = db_folder.substr(_db_name.length() + 1);
+    if (timestamp.length() < 12 || timestamp.find_first_not_of("0123456789") != string::npos)
         return "";
-    string db_folder = path.substr(position, path.length());
-    string timestamp = db_folder.substr(_db_name.length() + 1, db_folder.length());
     string year, month, day, hour, minute, second;
     year = "20" + timestamp.substr(0, 2);
     month = timestamp.substr(2, 2);
@@ -1202,12 +1203,33 @@ string
 Util::get_folder_name(const string path, const string db_name){
     string _db_name = db_name + ".db";
     string::size_type position;
-    position = path.find(_db_name);
+    position = path.find_last_of('/');
 
-    string db_folder = path.substr(position, path.length());
+    // empty when the folder is not a backup of the database
+    string db_folder = position == path.npos ? path : path.substr(position + 1);
+    if (db_folder.compare(0, _db_name.length(), _db_name) != 0)
+        return "";
     return db_folder;
 }
 
+// put a copy of the backup at path in the place of the database folder db_path;
+// the database is only replaced once the copy is complete
+bool
+Util::restore_folder(const string path, const string db_home, const string db_name, const string db_path){
+    if (Util::get_folder_name(path, db_name).empty() || Util::dir_exist(path) == false)
+        return false;
+    string copy_path = db_home + "/" + db_name + ".restoring";
+    Util::remove_path(copy_path);
+    string sys_cmd = "cp -r " + path + " " + copy_path;
+    if (system(sys_cmd.c_str()) != 0)
+    {
+        Util::remove_path(copy_path);
+        return false;
+    }
+    Util::remove_path(db_path);
+    return rename(copy_path.c_str(), db_path.c_str()) == 0;
+}
+
 bool
 Util::save_to_file(const char* _dir, const string _content)
 {
diff --git a/Util/Util.h b/Util/Util.h
index faca7f2..9d02768 100644
--- a/Util/Util.h
+++ b/Util/Util.h
@@ -402,6 +402,7 @@ public:
     static std::string getTimeString2();
     static int getRandNum();
 	static std::string get_folder_name(const std::string path, const std::string db_name);
+	static bool restore_folder(const std::string path, const std::string db_home, const std::string db_name, const std::string db_path);
 	static std::string get_backup_time(const std::string path, const std::string db_name);
 	static long get_cur_time();
 	static int get_time();
-- 
2.43.0


From 92c9625d6b9af50a707a215821ace3643997541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 110/149] fix: directories are created with the permissions
 0755, whatever the length of the path

---
 Util/Util.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index d35b6d4..47a9b80 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -906,22 +906,22 @@ Util::create_dirs(const string _dirs)
 {
     if (! Util::dir_exist(_dirs))
     {
-        char tmpDirPath[255] = {0};
+        string tmpDirPath;
         size_t len = _dirs.length();
         for (size_t i = 0; i < len; i++)
         {
-            tmpDirPath[i] = _dirs[i];
+            tmpDirPath += _dirs[i];
             if (tmpDirPath[i] == '/')
             {
-                if (access(tmpDirPath, 0) != 0)
+                if (access(tmpDirPath.c_str(), 0) != 0)
                 {
-                    mkdir(tmpDirPath, 755);
+                    mkdir(tmpDirPath.c_str(), 0755);
                 }
             }
         }
-        if (access(tmpDirPath, 0) != 0)
+        if (access(tmpDirPath.c_str(), 0) != 0)
         {
-            mkdir(tmpDirPath, 755);
+            mkdir(tmpDirPath.c_str(), 0755);
         }
         return true;
     }
-- 
2.43.0


From 9dd1043d8ecdf572daa20d0fcc0c33de37eaa252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 111/149] fix: a backup that cannot be moved into place is
 reported, and backups of other databases are not listed

---
 Main/gbackup.cpp |  9 +++++++--
 Main/ghttp.cpp   | 16 ++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/Main/gbackup.cpp b/Main/gbackup.cpp
index fa20d5a..076a9cb 100644
--- a/Main/gbackup.cpp
+++ b/Main/gbackup.cpp
@@ -111,8 +111,13 @@ int main(int argc, char *argv[])
 		}
 		string timestamp = Util::get_timestamp();
 		string new_folder =  db_name + _db_suffix + "_" + timestamp;
-		cmd = "mv " + default_backup_path + "/" + db_name + _db_suffix + " " + backup_path + "/" + new_folder;
-		system(cmd.c_str());
+		cmd = "mv -T " + default_backup_path + "/" + db_name + _db_suffix + " " + backup_path + "/" + new_folder;
+		// never onto or into a backup of the same second
+		if (Util::dir_exist(backup_path + "/" + new_folder) || system(cmd.c_str()) != 0)
+		{
+			cout << "Backup Failed!" << endl;
+			return 0;
+		}
 		long tv_end = Util::get_cur_time();
 		cout << "Used " << (tv_end - tv_begin) << " ms" << endl;
 		return 0;
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index df8db6d..90b2b46 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1876,9 +1876,17 @@ void backup_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			string new_folder =  db_name + _db_suffix + "_" + timestamp;
 			string sys_cmd, _path;
 			apiUtil->string_suffix(path, '/');
+			Util::create_dirs(path);
 			_path = path + new_folder;
-			sys_cmd = "mv " + default_backup_path + "/" + db_name + _db_suffix + " " + _path;
-			system(sys_cmd.c_str());
+			sys_cmd = "mv -T " + default_backup_path + "/" + db_name + _db_suffix + " " + _path;
+			// never onto or into a backup of the same second
+			if (Util::dir_exist(_path) || system(sys_cmd.c_str()) != 0)
+			{
+				error = "Failed to backup the database to " + _path + ".";
+				apiUtil->unlock_databaseinfo(db_info);
+				sendResponseMsg(1005, error, operation, request, response);
+				return;
+			}
 
 			SLOG_DEBUG("database backup done: " + db_name);
 			string success = "Database backup successfully.";
@@ -1929,8 +1937,12 @@ void backup_path_thread_new(const shared_ptr<HttpServer::Request> &request, cons
 		resDoc.SetObject();
 		pathsDoc.SetArray();
 		Document::AllocatorType &allocator = resDoc.GetAllocator();
+		string prefix = db_name + _db_suffix + "_";
 		for (size_t i = 0; i < file_list.size(); i++)
 		{
+			// not the backups of a database whose name contains this one
+			if (file_list[i].compare(0, prefix.length(), prefix) != 0)
+				continue;
 			pathsDoc.PushBack(Value().SetString((backup_path + file_list[i]).c_str(), allocator), allocator);
 		}
 		resDoc.AddMember("StatusCode", 0, allocator);
-- 
2.43.0


From 6c67dd565f6283473f968e2385886cec4e641ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 112/149] fix: GET requests with parameters reach shutdown and
 download, and dropping a name twice keeps both folders

---
 Main/ghttp.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 90b2b46..9891a2b 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -661,7 +661,7 @@ int initialize(unsigned short port, std::string db_name, bool load_src)
 	// Default file: index.html
 	// Can for instance be used to retrieve an HTML 5 client that uses REST-resources on this server
 
-	server.resource["/shutdown"]["GET"] = [&server](shared_ptr<HttpServer::Response> response, shared_ptr<HttpServer::Request> request)
+	server.resource["/shutdown(\\?.*)?"]["GET"] = [&server](shared_ptr<HttpServer::Response> response, shared_ptr<HttpServer::Request> request)
 	{
 		shutdown_handler(server, response, request, "GET");
 	};
@@ -692,7 +692,7 @@ int initialize(unsigned short port, std::string db_name, bool load_src)
 		download_handler(server, response, request, "POST");
 	};
 
-	server.resource["/file/download"]["GET"] = [&server](shared_ptr<HttpServer::Response> response, shared_ptr<HttpServer::Request> request)
+	server.resource["/file/download(\\?.*)?"]["GET"] = [&server](shared_ptr<HttpServer::Response> response, shared_ptr<HttpServer::Request> request)
 	{
 		download_handler(server, response, request, "GET");
 	};
@@ -1388,7 +1388,8 @@ void drop_thread_new(const shared_ptr<HttpServer::Request> &request, const share
 			}
 			else
 			{
-				string cmd = "mv " + db_path + " " + _db_home + "/" + db_name + ".bak";
+				// the folder of an earlier database of that name is kept aside
+				string cmd = "mv -T --backup=numbered " + db_path + " " + _db_home + "/" + db_name + ".bak";
 				SLOG_DEBUG("delete the file: " + cmd);
 				system(cmd.c_str());
 			}
-- 
2.43.0


From e17d48c452a0a761604ced909d9c4be74f0fb377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 113/149] fix: IP ranges are ranges of addresses, and a
 malformed rule or address does not stop the server

---
 Util/IPBlackList.cpp | 27 ++++-----------------------
 Util/IPBlackList.h   |  1 +
 Util/IPWhiteList.cpp | 30 +++++-------------------------
 Util/IPWhiteList.h   |  1 +
 Util/Util.cpp        | 15 +++++++++++++++
 Util/Util.h          |  1 +
 6 files changed, 27 insertions(+), 48 deletions(-)

diff --git a/Util/IPBlackList.cpp b/Util/IPBlackList.cpp
index ff7dd4b..3713365 100644
--- a/Util/IPBlackList.cpp
+++ b/Util/IPBlackList.cpp
@@ -24,6 +24,7 @@ void IPBlackList::Init(){
 }
 
 void IPBlackList::Load(std::string file){
+    std::lock_guard<std::mutex> guard(this->ipListLock);
     this->Init();
     this->ReadIPFromFile(file);
 }
@@ -53,35 +54,15 @@ void IPBlackList::ReadIPFromFile(std::string file){
 }
 
 bool IPBlackList::Check(std::string ip){
+    std::lock_guard<std::mutex> guard(this->ipListLock);
     if(this->ipList.empty())
         return true;
     else if(this->ipList.find(ip) != this->ipList.end())
         return false;
     for(std::set<string>::iterator it=this->ipList.begin(); it!=this->ipList.end(); ++it){
         // case for xxx.xxx.xxx.xxx-xxx.xxx.xxx.xxx
-        string test = *it;
-        if(test.find("-") != std::string::npos){
-            std::vector<std::string> fields;
-            std::vector<std::string> start;
-            std::vector<std::string> end;
-            std::vector<std::string> test_ip;
-            Util::split( test, "-", fields );
-            Util::split( fields[0], ".", start );
-            Util::split( fields[1], ".", end );
-            Util::split( ip, ".", test_ip );
-            bool res = false;
-            for(int i = 0; i < 4; i++){
-                int s = std::stoi(start[i]);
-                int e = std::stoi(end[i]);
-                int candidate = std::stoi(test_ip[i]);
-                if(!(s <= candidate && candidate <= e)){
-                    res = true;
-                    break;
-                }
-            }
-            if(!res)
-                return false;
-        }
+        if(Util::ip_in_range(ip, *it))
+            return false;
     }
     return true;
 }
diff --git a/Util/IPBlackList.h b/Util/IPBlackList.h
index a6ce7e8..31d73ad 100644
--- a/Util/IPBlackList.h
+++ b/Util/IPBlackList.h
@@ -13,6 +13,7 @@ public:
     IPBlackList();
     ~IPBlackList();
     std::set<std::string> ipList;
+    std::mutex ipListLock;
     //std::regex ipPattern("(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})\\." + "(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})\\."
     //+ "(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})\\." + "(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})")
     void Init();
diff --git a/Util/IPWhiteList.cpp b/Util/IPWhiteList.cpp
index 5cb4c72..4f0ad03 100644
--- a/Util/IPWhiteList.cpp
+++ b/Util/IPWhiteList.cpp
@@ -24,6 +24,7 @@ void IPWhiteList::Init(){
 }
 
 void IPWhiteList::Load(std::string file){
+    std::lock_guard<std::mutex> guard(this->ipListLock);
     this->Init();
     this->ReadIPFromFile(file);
 }
@@ -50,36 +51,15 @@ void IPWhiteList::ReadIPFromFile(std::string file){
 }
 
 bool IPWhiteList::Check(std::string ip){
+    std::lock_guard<std::mutex> guard(this->ipListLock);
     if(this->ipList.empty())
         return false;
     else if(this->ipList.find(ip) != this->ipList.end())
         return true;
     for(std::set<string>::iterator it=this->ipList.begin(); it!=this->ipList.end(); ++it){
-        // cout << "case for xxx.xxx.xxx.xxx-xxx.xxx.xxx.xxx" << endl;
-        string test = *it;
-        if(test.find("-") != std::string::npos){
-            std::vector<std::string> fields;
-            std::vector<std::string> start;
-            std::vector<std::string> end;
-            std::vector<std::string> test_ip;
-            Util::split( test, "-", fields );
-            Util::split( fields[0], ".", start );
-            Util::split( fields[1], ".", end );
-            Util::split( ip, ".", test_ip );
-            bool res = true;
-            for(int i = 0; i < 4; i++){
-                int s = std::stoi(start[i]);
-                int e = std::stoi(end[i]);
-                int candidate = std::stoi(test_ip[i]);
-
-                if(!(s <= candidate && candidate <= e)){
-                    res = false;
-                    break;
-                }
-            }
-            if(res)
-                return true;
-        }
+        // case for xxx.xxx.xxx.xxx-xxx.xxx.xxx.xxx
+        if(Util::ip_in_range(ip, *it))
+            return true;
     }
     return false;
 }
diff --git a/Util/IPWhiteList.h b/Util/IPWhiteList.h
index 376219d..81e67fb 100644
--- a/Util/IPWhiteList.h
+++ b/Util/IPWhiteList.h
@@ -14,6 +14,7 @@ public:
     IPWhiteList();
     ~IPWhiteList();
     std::set<std::string> ipList;
+    std::mutex ipListLock;
     //std::regex ipPattern("(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})\\." + "(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})\\."
      //                + "(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})\\." + "(1\\d{1,2}|2[0-4]\\d|25[0-5]|\\d{1,2})")
     void Init();
diff --git a/Util/Util.cpp b/Util/Util.cpp
index 47a9b80..1a25175 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -1230,6 +1230,21 @@ Util::restore_folder(const string path, const string db_home, const string db_na
     return rename(copy_path.c_str(), db_path.c_str()) == 0;
 }
 
+// whether an IPv4 address lies in a range first-last (both included);
+// no address lies in a malformed range, and what is no address in none
+bool
+Util::ip_in_range(const string& ip, const string& range)
+{
+    string::size_type pos = range.find('-');
+    if (pos == string::npos)
+        return false;
+    struct in_addr first, last, candidate;
+    if (inet_pton(AF_INET, range.substr(0, pos).c_str(), &first) != 1 || inet_pton(AF_INET, range.substr(pos + 1).c_str(), &last) != 1
+        || inet_pton(AF_INET, ip.c_str(), &candidate) != 1)
+        return false;
+    return ntohl(first.s_addr) <= ntohl(candidate.s_addr) && ntohl(candidate.s_addr) <= ntohl(last.s_addr);
+}
+
 bool
 Util::save_to_file(const char* _dir, const string _content)
 {
diff --git a/Util/Util.h b/Util/Util.h
index 9d02768..af33a35 100644
--- a/Util/Util.h
+++ b/Util/Util.h
@@ -419,6 +419,7 @@ public:
 
     static std::string replace_all(std::string _content,const std::string oldtext,const std::string newtext);
     static std::string clear_angle_brackets(std::string _str);
+    static bool ip_in_range(const std::string& ip, const std::string& range);
 
 	static bool is_literal_ele(TYPE_ENTITY_LITERAL_ID id);
 	static bool is_entity_ele(TYPE_ENTITY_LITERAL_ID id);
-- 
2.43.0


From 976fd7007c0ec5adc0658dfbec2c90ef4eee9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 114/149] fix: an export that cannot write its file is reported

---
 Main/ghttp.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 9891a2b..6b3e9c7 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -2488,6 +2488,13 @@ void export_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 		apiUtil->rdlock_database(db_name); // lock database
 		SLOG_DEBUG("export_path: " + db_path);
 		FILE *ofp = fopen(db_path.c_str(), "w");
+		if (ofp == NULL)
+		{
+			apiUtil->unlock_database(db_name);
+			error = "The file " + db_path + " can not be written.";
+			sendResponseMsg(1005, error, operation, request, response);
+			return;
+		}
 		current_database->export_db(ofp);
 		fflush(ofp);
 		fclose(ofp);
-- 
2.43.0


From 8b054906ec4d0c3ac15caa903ea404d8c01b0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 115/149] fix: a missing conf.ini or section of it means the
 defaults

---
 Util/INIParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Util/INIParser.cpp b/Util/INIParser.cpp
index cc68979..daa29c5 100644
--- a/Util/INIParser.cpp
+++ b/Util/INIParser.cpp
@@ -74,6 +74,8 @@ int INIParser::ReadINI(string path)
 string INIParser::GetValue(string root, string key)
 {
         map<string, SubNode>::iterator itr = map_ini.find(root);
+        if (itr == map_ini.end())
+            return "";
         map<string, string>::iterator sub_itr = itr->second.sub_node.find(key);
         if (sub_itr != itr->second.sub_node.end())
             return sub_itr->second;  
-- 
2.43.0


From 07f3dccfc15f5fbe11f1e08d0ecefac2a45cd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 116/149] fix: a deeply nested JSON request does not use up the
 stack

---
 GRPC/grpc_message.cpp | 2 +-
 Main/ghttp.cpp        | 6 ++++--
 Server/Server.cpp     | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/GRPC/grpc_message.cpp b/GRPC/grpc_message.cpp
index b7d7b04..cb444d3 100644
--- a/GRPC/grpc_message.cpp
+++ b/GRPC/grpc_message.cpp
@@ -142,7 +142,7 @@ Json &GRPCReq::json() const
     if (_content_type == APPLICATION_JSON && _req_data->json.IsNull())
     {
         const std::string &body_content = this->body();
-        _req_data->json.Parse(body_content.c_str());
+        _req_data->json.Parse<rapidjson::kParseIterativeFlag>(body_content.c_str());
         if (_req_data->json.HasParseError())
         {
             fprintf(stderr, "[GRPC] %s:%s\n", "Parse json data error: ", body_content.c_str());
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 6b3e9c7..9b3281a 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -3404,7 +3404,8 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		auto strJson = request->content.string();
 		SLOG_DEBUG("post content: \n" + strJson);
 
-		document.Parse(strJson.c_str());
+		// the nesting of a request must not use up the stack
+		document.Parse<rapidjson::kParseIterativeFlag>(strJson.c_str());
 		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format, content=" + strJson;
@@ -4457,7 +4458,8 @@ void shutdown_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		auto strJson = request->content.string();
 		SLOG_DEBUG("shutdown post content: \n" + strJson);
 
-		document.Parse(strJson.c_str());
+		// the nesting of a request must not use up the stack
+		document.Parse<rapidjson::kParseIterativeFlag>(strJson.c_str());
 		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format,content=" + strJson;
diff --git a/Server/Server.cpp b/Server/Server.cpp
index 27a4c33..74dfc31 100644
--- a/Server/Server.cpp
+++ b/Server/Server.cpp
@@ -423,7 +423,7 @@ Server::parser(std::string _raw_cmd, Operation& _ret_oprt)
 	* @brief Check if the command is a valid JSON string.
 	*/
 	Document document;
-	document.Parse(_raw_cmd.c_str());
+	document.Parse<rapidjson::kParseIterativeFlag>(_raw_cmd.c_str());
 	if (document.HasParseError())
 		return false;
 
-- 
2.43.0


From 9de79a96b49c4657f5cd5243aa87138b007aff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 117/149] fix: a loaded database gets its transaction manager
 whatever others do at the time

---
 GRPC/APIUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 15c2573..8bf1c9a 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -727,7 +727,7 @@ bool APIUtil::unlock_databaseinfo(DatabaseInfo* dbinfo)
 bool APIUtil::insert_txn_managers(Database* current_database, std::string database)
 {
     shared_ptr<Txn_manager> txn_m = make_shared<Txn_manager>(current_database, database);
-    if(pthread_rwlock_trywrlock(&txn_m_lock) ==0)
+    if(pthread_rwlock_wrlock(&txn_m_lock) ==0)
     {
         txn_managers.insert(pair<string, shared_ptr<Txn_manager>>(database, txn_m));
         if (pthread_rwlock_unlock(&txn_m_lock) == 0)
-- 
2.43.0


From 626ef915aef91c843e5ecd38216f52bc4353ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 118/149] fix: dropping a database waits for changes of the
 users

---
 GRPC/APIUtil.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 8bf1c9a..b21b0ea 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -900,6 +900,7 @@ bool APIUtil::delete_from_already_build(string db_name)
             already_build.erase(db_name);
 
             // clear all privileges 
+            pthread_rwlock_rdlock(&users_map_lock);
             std::map<std::string, struct DBUserInfo *>::iterator iter;
             for (iter = users.begin(); iter != users.end(); iter++)
             {
@@ -931,6 +932,7 @@ bool APIUtil::delete_from_already_build(string db_name)
                 iter->second->export_priv.erase(db_name);
                 pthread_rwlock_unlock(&(iter->second->export_priv_set_lock));
             }
+            pthread_rwlock_unlock(&users_map_lock);
         }
         return unlock_already_build_map();
     }
-- 
2.43.0


From 1d5b9b2d26a56daec153643ea23d232820c1249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 119/149] fix: the answer to an upload is JSON whatever the
 file name is

---
 Main/ghttp.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 9b3281a..11da183 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -4679,7 +4679,15 @@ void upload_handler(const HttpServer &server, const shared_ptr<HttpServer::Respo
 		fout.close();
 		formPtr.release();
 		std::string msg = "upload file success, file path: " + file_dst;
-		std::string resJson = "{\"StatusCode\":0, \"StatusMsg\":\"success\", \"filepath\": \""+file_dst+"\"}";
+		Document resDoc;
+		resDoc.SetObject();
+		resDoc.AddMember("StatusCode", 0, resDoc.GetAllocator());
+		resDoc.AddMember("StatusMsg", "success", resDoc.GetAllocator());
+		resDoc.AddMember("filepath", StringRef(file_dst.c_str(), file_dst.length()), resDoc.GetAllocator());
+		StringBuffer resBuffer;
+		PrettyWriter<StringBuffer> resWriter(resBuffer);
+		resDoc.Accept(resWriter);
+		std::string resJson = resBuffer.GetString();
 		apiUtil->write_access_log(operation, remote_ip, 0, msg);
 		
 		*response << "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nAccess-Control-Allow-Origin: *\r\nContent-Length: " 
-- 
2.43.0


From 31175ab8b8f06bacb5aeecc5711dd0d8fd16ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 120/149] fix: INSERT DATA and DELETE DATA with variables are
 errors

---
 Parser/QueryParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 129a878..0f9d0da 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1564,6 +1564,11 @@ antlrcpp::Any QueryParser::visitTriplesSameSubject(SPARQLParser::TriplesSameSubj
 				object = getTextWithRange(object_ptr);
 			replacePrefix(object);
 
+			if ((query_tree_ptr->getUpdateType() == QueryTree::Insert_Data
+				|| query_tree_ptr->getUpdateType() == QueryTree::Delete_Data)
+				&& (subject[0] == '?' || predicate[0] == '?' || object[0] == '?'))
+				throw runtime_error("[ERROR]	INSERT DATA and DELETE DATA take no variables.");
+
 			if (query_tree_ptr->getUpdateType() == QueryTree::Delete_Data
 				|| query_tree_ptr->getUpdateType() == QueryTree::Delete_Where
 				|| query_tree_ptr->getUpdateType() == QueryTree::Delete_Clause)
-- 
2.43.0


From af16f4e443ecd6f426015e7b3ee39caf4a708176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 121/149] fix: the list of databases shows the status at the
 time of the request

---
 GRPC/APIUtil.cpp | 2 +-
 Main/ghttp.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index b21b0ea..82f744a 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1105,7 +1105,7 @@ bool APIUtil::add_already_build(const std::string &db_name, const std::string &c
 
 void APIUtil::get_already_builds(const std::string& username, vector<struct DatabaseInfo *> &array)
 {
-    pthread_rwlock_rdlock(&already_build_map_lock);
+    pthread_rwlock_wrlock(&already_build_map_lock);     // the status of the databases is written
     std::map<std::string, struct DatabaseInfo *>::iterator iter;
     for (iter = already_build.begin(); iter != already_build.end(); iter++)
     {
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 11da183..11d74ec 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1428,7 +1428,9 @@ void show_thread_new(const shared_ptr<HttpServer::Request> &request, const share
 		for (size_t i = 0; i < count; i++)
 		{
 			DatabaseInfo *dbInfo = array[i];
-			jsonArray.PushBack(dbInfo->toJSON(allocator).Move(), allocator);
+			rapidjson::Value item = dbInfo->toJSON(allocator);
+			item["status"].SetString(apiUtil->check_already_load(dbInfo->getName()) ? "loaded" : "unloaded", allocator);
+			jsonArray.PushBack(item.Move(), allocator);
 		}
 
 		resDoc.AddMember("StatusCode", 0, allocator);
-- 
2.43.0


From 31dec8e12608ffcad54f7bfebe0d8bb94d6d4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 122/149] fix: requests that change whether a database exists
 or is loaded exclude others on its name

---
 Main/ghttp.cpp | 87 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 11d74ec..c0fc41b 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -23,6 +23,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <mutex>
+#include <condition_variable>
 
 #include "../GRPC/APIUtil.h"
 #include "../Util/INIParser.h"
@@ -164,6 +166,67 @@ std::string fileSuffix(const std::string &filepath);
 
 std::string fileName(const std::string &filepath);
 
+/**
+ * @description: requests that change whether and where a database exists or is loaded (build, load, unload, drop, rename, restore)
+ * run alone on its name, all other requests on the database wait until they are done.
+ */
+class DatabaseGate
+{
+	struct Holders
+	{
+		int shared = 0;
+		bool alone = false;
+	};
+	static std::mutex gate_mutex;
+	static std::condition_variable gate_cond;
+	static std::map<std::string, Holders> holders;
+	std::string name;
+	enum { OUT, SHARED, ALONE } state;
+public:
+	DatabaseGate() : state(OUT) {}
+	DatabaseGate(const DatabaseGate &) = delete;
+	DatabaseGate &operator=(const DatabaseGate &) = delete;
+	void share(const std::string &db_name)
+	{
+		std::unique_lock<std::mutex> lock(gate_mutex);
+		gate_cond.wait(lock, [&db_name] { auto it = holders.find(db_name); return it == holders.end() || !it->second.alone; });
+		++holders[db_name].shared;
+		name = db_name;
+		state = SHARED;
+	}
+	// refused when somebody else is alone on the name, or is on it and we do not wait for that
+	bool try_alone(const std::string &db_name, bool wait)
+	{
+		std::unique_lock<std::mutex> lock(gate_mutex);
+		auto it = holders.find(db_name);
+		if (it != holders.end() && (it->second.alone || !wait))
+			return false;
+		Holders &h = holders[db_name];
+		h.alone = true;
+		name = db_name;
+		state = ALONE;
+		gate_cond.wait(lock, [&h] { return h.shared == 0; });
+		return true;
+	}
+	~DatabaseGate()
+	{
+		if (state == OUT)
+			return;
+		std::unique_lock<std::mutex> lock(gate_mutex);
+		auto it = holders.find(name);
+		if (state == ALONE)
+			it->second.alone = false;
+		else
+			--it->second.shared;
+		if (it->second.shared == 0 && !it->second.alone)
+			holders.erase(it);
+		gate_cond.notify_all();
+	}
+};
+std::mutex DatabaseGate::gate_mutex;
+std::condition_variable DatabaseGate::gate_cond;
+std::map<std::string, DatabaseGate::Holders> DatabaseGate::holders;
+
 pthread_t scheduler = 0;
 
 int query_num = 0;
@@ -251,6 +314,7 @@ public:
 	string log_prefix;
 	const shared_ptr<HttpServer::Response> response;
 	const shared_ptr<HttpServer::Request> request;
+	shared_ptr<DatabaseGate> gate; // left before the response is sent
 	Task(bool flag, string name, string ft, string query, const shared_ptr<HttpServer::Response> &res, const shared_ptr<HttpServer::Request> &req);
 	Task(string username, string name, string ft, string _remote_ip, string _log_prefix, string _querytype,
 		 string query, const shared_ptr<HttpServer::Response> &res, const shared_ptr<HttpServer::Request> &req);
@@ -3488,6 +3552,21 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		sendResponseMsg(1004, msg, "privilegecheck", request, response);
 		return;
 	}
+	shared_ptr<DatabaseGate> gate = make_shared<DatabaseGate>();
+	bool loads = operation == "load" && !apiUtil->check_already_load(db_name);
+	if (loads || operation == "build" || operation == "unload" || operation == "drop" || operation == "rename" || operation == "restore")
+	{
+		// while the database is not there or not loaded, the requests on it end soon
+		if (gate->try_alone(db_name, loads || operation == "build") == false)
+		{
+			sendResponseMsg(1007, "the operation can not been excuted due to loss of lock.", operation, request, response);
+			return;
+		}
+	}
+	else if (!db_name.empty())
+	{
+		gate->share(db_name);
+	}
 	// build database
 	if (operation == "build")
 	{
@@ -3849,6 +3928,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 
 		query_num++;
 		Task *task = new Task(username, db_name, format, remote_ip, log_prefix, querytype, sparql, response, request);
+		task->gate = gate;
 		pool.AddTask(task);
 	}
 	else if (operation == "export")
@@ -5454,6 +5534,13 @@ void rename_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			sendResponseMsg(1004, error, operation, request, response);
 			return;
 		}
+		DatabaseGate new_gate;
+		if (new_name != db_name && new_gate.try_alone(new_name, false) == false)
+		{
+			error = "Unable to rename due to loss of lock";
+			sendResponseMsg(1007, error, operation, request, response);
+			return;
+		}
 		// check new_name available
 		if (apiUtil->check_db_exist(new_name) == true)
 		{
-- 
2.43.0


From 219a0a2641cde10ce02aab7d0d49eb116fb9a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 123/149] fix: requests for the same transaction wait for each
 other

---
 Database/Txn_manager.cpp | 8 ++++++--
 Database/Txn_manager.h   | 2 +-
 Util/Transaction.h       | 1 +
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index de6fd23..3fcc49b 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -172,7 +172,8 @@ int Txn_manager::Commit(txn_id_t TID)
 		// checkpoint_lock.unlock();
 		return -1;
 	}
-	else if (txn->GetState() != TransactionState::RUNNING) {
+	unique_lock<mutex> request_guard(txn->request_lock);
+	if (txn->GetState() != TransactionState::RUNNING) {
 		cerr << "transaction not in running state! commit failed" << " " << (int)txn->GetState() << endl;	
 		// checkpoint_lock.unlock();
 		return 1;
@@ -195,6 +196,7 @@ int Txn_manager::Commit(txn_id_t TID)
 	txn->SetState(TransactionState::COMMITTED);
 	txn->SetEndTime(Util::get_cur_time());
 	add_dirty_keys(txn);
+	request_guard.unlock();
 	checkpoint_lock.unlock();
 	committed_num++;
 	int cycle = 50000;
@@ -235,7 +237,8 @@ int Txn_manager::Rollback(txn_id_t TID)
 		cerr << "wrong transaction id!" << endl;
 		return -1;
 	}
-	else if (txn->GetState() != TransactionState::RUNNING) {
+	lock_guard<mutex> request_guard(txn->request_lock);
+	if (txn->GetState() != TransactionState::RUNNING) {
 		cerr << "transaction not in running state! rollback failed" << endl;
 		return 1;
 	}
@@ -250,6 +253,7 @@ int Txn_manager::Query(txn_id_t TID, string sparql, string& results)
 		cerr << "wrong transaction ID!" << endl;
 		return -1;
 	}
+	lock_guard<mutex> request_guard(txn->request_lock);
 	if (txn->GetState() != TransactionState::RUNNING) {
 		cerr << "transaction not in running state! Query failed" <<  " " << (int)txn->GetState() <<  endl;;
 		return -99;
diff --git a/Database/Txn_manager.h b/Database/Txn_manager.h
index 12f4b46..30c606b 100644
--- a/Database/Txn_manager.h
+++ b/Database/Txn_manager.h
@@ -72,7 +72,7 @@ public:
 	//GC
 	void Checkpoint();
 	
-	shared_ptr<Transaction> Get_Transaction(txn_id_t TID) { return txn_table[TID]; };
+	shared_ptr<Transaction> Get_Transaction(txn_id_t TID) { return get_transaction(TID); };
 	txn_id_t find_latest_txn();
 	
 	inline Database* GetDatabase() { return this->db; }
diff --git a/Util/Transaction.h b/Util/Transaction.h
index f64123d..dc59ffe 100644
--- a/Util/Transaction.h
+++ b/Util/Transaction.h
@@ -45,6 +45,7 @@ private:
 	int wait_lock_time;
 	int retry_times;
 public:
+	mutex request_lock; // held while a query, the commit or the rollback of it is running
 	int update_num;
 	bool stale_read; // SERIALIZABLE: an older version than the latest one was read without a latch
 	enum class IDType{SUBJECT, PREDICATE, OBJECT};
-- 
2.43.0


From e5e55be35f2d310b9eef56d36ac776f208f5641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 124/149] fix: path functions take the nodes there are: no IDs
 out of range, no nodes for unbound variables, literals and unknown IRIs

---
 Query/GeneralEvaluation.cpp | 48 ++++++++++++++++++++++++++++++++-----
 Query/GeneralEvaluation.h   |  2 ++
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 68d07a9..3e14427 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -250,10 +250,36 @@ GeneralEvaluation::prepPathQuery()
 {
 	if (!csr)
 		loadCSR();
+	// The path functions keep arrays indexed by entity ID, and IDs go up to the size of the string index
+	int id_num = stringindex->getNum(StringIndexFile::Entity);
+	if (static_cast<int>(csr[1].n) < id_num)
+		csr[1].n = id_num;
 	if (!pqHandler)
 		pqHandler = make_shared<PathQueryHandler>(csr);
 }
 
+/**
+	Add the entity an IRI names to the vertices a path function is called for; an IRI of no entity adds none.
+*/
+void
+GeneralEvaluation::addPathVertex(const string &iri, vector<int> &vertices)
+{
+	TYPE_ENTITY_LITERAL_ID id = kvstore->getIDByEntity(iri);
+	if (id != INVALID_ENTITY_LITERAL_ID)
+		vertices.push_back(id);
+}
+
+/**
+	Remove the groups that consist of an ID no entity has.
+*/
+void
+GeneralEvaluation::removeUnusedVertices(vector<vector<int>> &groups)
+{
+	groups.erase(remove_if(groups.begin(), groups.end(), [this](const vector<int> &group) {
+		return group.size() == 1 && kvstore->getEntityByID(group[0]).empty();
+	}), groups.end());
+}
+
 void
 GeneralEvaluation::setStringIndexPointer(StringIndex* _tmpsi)
 {
@@ -1620,12 +1646,18 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					for (auto vert : proj[0].path_args.vert_set)
 						uid_ls_ls.back().push_back(kvstore->getIDByString(vert));
 					if (!proj[0].path_args.src.empty())
-						uid_ls.push_back(kvstore->getIDByString(proj[0].path_args.src));
+					{
+						if (proj[0].path_args.src[0] != '?')
+							addPathVertex(proj[0].path_args.src, uid_ls);
+					}
 					else
 						uid_ls.push_back(-1);	// Dummy for loop
 					// if (proj[0].aggregate_type != ProjectionVar::ppr_type)
 					if (!proj[0].path_args.dst.empty())
-						vid_ls.push_back(kvstore->getIDByString(proj[0].path_args.dst));
+					{
+						if (proj[0].path_args.dst[0] != '?')
+							addPathVertex(proj[0].path_args.dst, vid_ls);
+					}
 					else
 						vid_ls.push_back(-1);	// Dummy for loop
 					if (!proj[0].path_args.pred_set.empty())
@@ -1957,6 +1989,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								{
 									auto ret = pqHandler->labelProp(proj[0].path_args.directed, pred_id_set, proj[0].path_args.misc[0]);
 									bool localFirstOutput = true;
+									removeUnusedVertices(ret);
 									for (auto mp : ret)
 									{
 										if (localFirstOutput)
@@ -1974,6 +2007,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								{
 									auto ret = pqHandler->WCC(pred_id_set);
 									bool localFirstOutput = true;
+									removeUnusedVertices(ret);
 									for (auto mp : ret)
 									{
 										if (localFirstOutput)
@@ -2687,13 +2721,13 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								{
 									for (int j = begin; j <= end; j++)
 									{
-										if (result0.result[j].id[var2temp] != INVALID)
+										if (result0.result[j].id[var2temp] != INVALID && Util::is_entity_ele(result0.result[j].id[var2temp]))
 											uid_ls.push_back(result0.result[j].id[var2temp]);
 									}
 								}
 							}
 							else	// src is an IRI
-								uid_ls.push_back(kvstore->getIDByString(proj[i].path_args.src));
+								addPathVertex(proj[i].path_args.src, uid_ls);
 						}
 						else
 							uid_ls.push_back(-1);	// Dummy for loop
@@ -2711,13 +2745,13 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								{
 									for (int j = begin; j <= end; j++)
 									{
-										if (result0.result[j].id[var2temp] != INVALID)
+										if (result0.result[j].id[var2temp] != INVALID && Util::is_entity_ele(result0.result[j].id[var2temp]))
 											vid_ls.push_back(result0.result[j].id[var2temp]);
 									}
 								}
 							}
 							else	// dst is an IRI
-								vid_ls.push_back(kvstore->getIDByString(proj[i].path_args.dst));
+								addPathVertex(proj[i].path_args.dst, vid_ls);
 						}
 						else
 							vid_ls.push_back(-1);	// Dummy for loop
@@ -3058,6 +3092,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								else if (proj[i].aggregate_type == ProjectionVar::labelProp_type)
 								{
 									if (!doneOnceOp)
+										removeUnusedVertices(ret);
 									{
 										auto ret = pqHandler->labelProp(proj[i].path_args.directed, pred_id_set, proj[i].path_args.misc[0]);
 										bool localFirstOutput = true;
@@ -3075,6 +3110,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								else if (proj[i].aggregate_type == ProjectionVar::wcc_type)
 								{
 									if (!doneOnceOp)
+										removeUnusedVertices(ret);
 									{
 										auto ret = pqHandler->WCC(pred_id_set);
 										bool localFirstOutput = true;
diff --git a/Query/GeneralEvaluation.h b/Query/GeneralEvaluation.h
index dfbb64c..ce45eed 100644
--- a/Query/GeneralEvaluation.h
+++ b/Query/GeneralEvaluation.h
@@ -146,6 +146,8 @@ class GeneralEvaluation
 	private:
 		void loadCSR();
 		void prepPathQuery();
+		void addPathVertex(const string &iri, std::vector<int> &vertices);
+		void removeUnusedVertices(std::vector<std::vector<int>> &groups);
 		void pathVec2JSON(int src, int dst, const std::vector<int> &v, std::stringstream &ss, double weight=-1);
 		void vertVec2JSON(const std::vector<int> &v, std::stringstream &ss);
 
-- 
2.43.0


From ac414a1f4c00e4be9d8342a88b27f344af3bee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 125/149] fix: path functions use no predicate newer than the
 adjacency lists

---
 Query/GeneralEvaluation.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 3e14427..658762e 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1666,7 +1666,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						{
 							TYPE_PREDICATE_ID pred_id = kvstore->getIDByPredicate(pred);
 							// cout << "pred_set id:" << pred_id << endl;
-							if (pred_id != static_cast<int>(INVALID))
+							if (pred_id != static_cast<int>(INVALID) && pred_id < static_cast<int>(csr[1].pre_num))
 								pred_id_set.push_back(pred_id);
 						}
 					}
@@ -1676,7 +1676,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						unordered_set<int> neg_pred_id_set;
 						for (string pred : proj[0].path_args.neg_pred_set)
 							neg_pred_id_set.emplace(kvstore->getIDByPredicate(pred));
-						unsigned pre_num = stringindex->getNum(StringIndexFile::Predicate);
+						unsigned pre_num = csr[1].pre_num;
 						for (unsigned j = 0; j < pre_num; j++)
 							if (neg_pred_id_set.find(j) == neg_pred_id_set.end())
 								pred_id_set.push_back(j);
@@ -2200,7 +2200,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						{
 							TYPE_PREDICATE_ID pred_id = kvstore->getIDByPredicate(pred);
 							// cout << "pred_set id:" << pred_id << endl;
-							if (pred_id != static_cast<int>(INVALID))
+							if (pred_id != static_cast<int>(INVALID) && pred_id < static_cast<int>(csr[1].pre_num))
 								pred_id_set.push_back(pred_id);
 						};
 					}
@@ -2210,7 +2210,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						unordered_set<int> neg_pred_id_set;
 						for (string pred : proj[0].path_args.neg_pred_set)
 							neg_pred_id_set.emplace(kvstore->getIDByPredicate(pred));
-						unsigned pre_num = stringindex->getNum(StringIndexFile::Predicate);
+						unsigned pre_num = csr[1].pre_num;
 						for (unsigned j = 0; j < pre_num; j++)
 							if (neg_pred_id_set.find(j) == neg_pred_id_set.end())
 								pred_id_set.push_back(j);
@@ -2549,7 +2549,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							{
 								TYPE_PREDICATE_ID pred_id = kvstore->getIDByPredicate(pred);
 								// cout << "pred_set id:" << pred_id << endl;
-								if (pred_id != static_cast<int>(INVALID))
+								if (pred_id != static_cast<int>(INVALID) && pred_id < static_cast<int>(csr[1].pre_num))
 									pred_id_set.push_back(pred_id);
 							}
 						}
@@ -2559,7 +2559,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							unordered_set<int> neg_pred_id_set;
 							for (string pred : proj[i].path_args.neg_pred_set)
 								neg_pred_id_set.emplace(kvstore->getIDByPredicate(pred));
-							unsigned pre_num = stringindex->getNum(StringIndexFile::Predicate);
+							unsigned pre_num = csr[1].pre_num;
 							for (unsigned j = 0; j < pre_num; j++)
 								if (neg_pred_id_set.find(j) == neg_pred_id_set.end())
 									pred_id_set.push_back(j);
@@ -2762,7 +2762,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							for (auto pred : proj[i].path_args.pred_set)
 							{
 								TYPE_PREDICATE_ID pred_id = kvstore->getIDByPredicate(pred);
-								if (pred_id != static_cast<int>(INVALID))
+								if (pred_id != static_cast<int>(INVALID) && pred_id < static_cast<int>(csr[1].pre_num))
 									pred_id_set.push_back(pred_id);
 							}
 						}
@@ -2772,7 +2772,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							unordered_set<int> neg_pred_id_set;
 							for (string pred : proj[i].path_args.neg_pred_set)
 								neg_pred_id_set.emplace(kvstore->getIDByPredicate(pred));
-							unsigned pre_num = stringindex->getNum(StringIndexFile::Predicate);
+							unsigned pre_num = csr[1].pre_num;
 							for (unsigned j = 0; j < pre_num; j++)
 								if (neg_pred_id_set.find(j) == neg_pred_id_set.end())
 									pred_id_set.push_back(j);
-- 
2.43.0


From d948041d8618e52349ca295fb5e39e89a4f19e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 126/149] fix: a predicate variable in a SELECT expression has
 its own value

---
 Query/GeneralEvaluation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 658762e..c5d8260 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2383,6 +2383,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					else if (proj[i].aggregate_type == ProjectionVar::CompTree_type)
 					{
 						if (group2temp.empty() && !one_group) {
+						// tells variables for predicates, whose IDs are their own, from the others
+						result0.entity_literal_varset = &this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset;
 							for (int j = begin; j <= end; j++) {
 								new_result0.result[j].str[proj2new[i] - new_result0_id_cols] = \
 									result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
@@ -2394,6 +2396,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								result0Varset).term_value;
 						}
 					}
+						result0.entity_literal_varset = NULL;
 					else if (proj[i].aggregate_type == ProjectionVar::Contains_type)
 					{
 						if (proj[i].func_args.size() == 2)
-- 
2.43.0


From 567612ce688f2fd530bdd8f113c67fb37d79186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 127/149] fix: path functions of several nodes separate their
 results by commas

---
 Query/GeneralEvaluation.cpp | 45 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index c5d8260..b67ac87 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1645,6 +1645,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					uid_ls_ls.push_back(vector<int>());
 					for (auto vert : proj[0].path_args.vert_set)
 						uid_ls_ls.back().push_back(kvstore->getIDByString(vert));
+					// A variable stands for no node here, as there are no solutions
 					if (!proj[0].path_args.src.empty())
 					{
 						if (proj[0].path_args.src[0] != '?')
@@ -1988,8 +1989,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								if (!doneOnceOp)
 								{
 									auto ret = pqHandler->labelProp(proj[0].path_args.directed, pred_id_set, proj[0].path_args.misc[0]);
-									bool localFirstOutput = true;
 									removeUnusedVertices(ret);
+									bool localFirstOutput = true;
 									for (auto mp : ret)
 									{
 										if (localFirstOutput)
@@ -2006,8 +2007,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								if (!doneOnceOp)
 								{
 									auto ret = pqHandler->WCC(pred_id_set);
-									bool localFirstOutput = true;
 									removeUnusedVertices(ret);
+									bool localFirstOutput = true;
 									for (auto mp : ret)
 									{
 										if (localFirstOutput)
@@ -2382,9 +2383,9 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					}
 					else if (proj[i].aggregate_type == ProjectionVar::CompTree_type)
 					{
-						if (group2temp.empty() && !one_group) {
 						// tells variables for predicates, whose IDs are their own, from the others
 						result0.entity_literal_varset = &this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset;
+						if (group2temp.empty() && !one_group) {
 							for (int j = begin; j <= end; j++) {
 								new_result0.result[j].str[proj2new[i] - new_result0_id_cols] = \
 									result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
@@ -2395,8 +2396,8 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								result0.doComp(proj[i].comp_tree_root, result0.result[begin], result0_id_cols, kvstore, \
 								result0Varset).term_value;
 						}
-					}
 						result0.entity_literal_varset = NULL;
+					}
 					else if (proj[i].aggregate_type == ProjectionVar::Contains_type)
 					{
 						if (proj[i].func_args.size() == 2)
@@ -2917,6 +2918,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									if (hopConstraint < 0)
 										hopConstraint = 999;
 									bool reachRes = pqHandler->kHopReachable(uid, vid, proj[i].path_args.directed, hopConstraint, pred_id_set);
+									if (notFirstOutput)
+										ss << ",";
+									else
+										notFirstOutput = 1;
 									ss << "{\"src\":\"" << kvstore->getStringByID(uid) << "\",\"dst\":\"" \
 										<< kvstore->getStringByID(vid) << "\",\"value\":";
 									cout << "src = " << kvstore->getStringByID(uid) << ", dst = " << kvstore->getStringByID(vid) << endl;
@@ -3054,38 +3059,28 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								}
 								else if (proj[i].aggregate_type == ProjectionVar::sssp_type)
 								{
-									if (notFirstOutput)
-										ss << ",";
-									else
-										notFirstOutput = 1;
 									auto paths = pqHandler->SSSP(uid, proj[i].path_args.directed, pred_id_set);
-									bool localFirstOutput = true;
 									for (auto mp : paths)
 									{
 										if (mp.second.size() != 0)
 										{
-											if (localFirstOutput)
-												localFirstOutput = false;
-											else
+											if (notFirstOutput)
 												ss << ",";
+											else
+												notFirstOutput = 1;
 											pathVec2JSON(uid, mp.second.back(), mp.second, ss);
 										}
 									}
 								}
 								else if (proj[i].aggregate_type == ProjectionVar::sssplen_type)
 								{
-									if (notFirstOutput)
-										ss << ",";
-									else
-										notFirstOutput = 1;
 									auto paths = pqHandler->SSSPLen(uid, proj[i].path_args.directed, pred_id_set);
-									bool localFirstOutput = true;
 									for (auto mp : paths)
 									{
-										if (localFirstOutput)
-											localFirstOutput = false;
-										else
+										if (notFirstOutput)
 											ss << ",";
+										else
+											notFirstOutput = 1;
 										
 										ss << "{\"src\":\"" << kvstore->getStringByID(uid)
 										<< "\",\"dst\":\"" << kvstore->getStringByID(mp.first) \
@@ -3095,9 +3090,9 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								else if (proj[i].aggregate_type == ProjectionVar::labelProp_type)
 								{
 									if (!doneOnceOp)
-										removeUnusedVertices(ret);
 									{
 										auto ret = pqHandler->labelProp(proj[i].path_args.directed, pred_id_set, proj[i].path_args.misc[0]);
+										removeUnusedVertices(ret);
 										bool localFirstOutput = true;
 										for (auto mp : ret)
 										{
@@ -3113,9 +3108,9 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 								else if (proj[i].aggregate_type == ProjectionVar::wcc_type)
 								{
 									if (!doneOnceOp)
-										removeUnusedVertices(ret);
 									{
 										auto ret = pqHandler->WCC(pred_id_set);
+										removeUnusedVertices(ret);
 										bool localFirstOutput = true;
 										for (auto mp : ret)
 										{
@@ -3142,6 +3137,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									else
 									{
 										auto ret = pqHandler->clusteringCoeff(uid, proj[i].path_args.directed, pred_id_set);
+										if (notFirstOutput)
+											ss << ",";
+										else
+											notFirstOutput = 1;
 										ss << "{\"src\":\"" << kvstore->getStringByID(uid) << "\",\"result\":";
 										ss << to_string(ret) << "}";
 									}
@@ -3172,7 +3171,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										notFirstOutput = 1;
 									ss << "{\"src\":\"" << kvstore->getStringByID(uid) 
 										<< "\",\"depth\":" << hopConstraint 
-										<< ", \"neighbor\":["; 
+										<< ", \"dst\":["; 
 									bool hasMore = false;
 									for (int nid : ret)
 									{
-- 
2.43.0


From 243a4e1912d3c347f102c0867d64f94fd992ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 128/149] fix: the nodes of a path function are among the
 variables GROUP BY keeps

---
 Query/QueryTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index c3cdd90..d84651f 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -613,6 +613,10 @@ Varset QueryTree::getResultProjectionVarset()
 		else {
 			if (this->projection[i].aggregate_var != "*")
 				varset += this->projection[i].comp_tree_root.getVarset();
+			// the nodes a path function is called for
+			for (const string &vert : this->projection[i].path_args.vert_set)
+				if (vert[0] == '?')
+					varset.addVar(vert);
 			varset += this->projection[i].var;
 		}
 	}
-- 
2.43.0


From c31e8eb2bb4b845f6b520212a9e516e13ff14f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 129/149] fix: closeness of a node without neighbours is zero

---
 Query/PathQueryHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 4f6e46a..0398de1 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1953,6 +1953,8 @@ double PathQueryHandler::closenessCentrality(int uid, bool directed, const std::
 			}
 		}
 	}
+	if (sum == 0)
+		return 0;	// no other node is reached
 	return 1.0 * (cnt - 1) / sum;
 }
 
-- 
2.43.0


From 9aea75a2a13e434d4a11771c098c2ad13594555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 130/149] fix: undirected cycles and single-source paths tell
 reversed edges

---
 Query/PathQueryHandler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 0398de1..3267613 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -581,12 +581,13 @@ std::vector<int> PathQueryHandler::cycle(int uid, int vid, bool directed,
 		// 	ans.push_back(s.top());
 		// 	s.pop();
 		// }
-		ans = shortestPath0(uid, vid, false, pred_set);
+		ans = shortestPath(uid, vid, false, pred_set);
 		int lens = ans.size();
 		if (lens == 0)
 			return ans;
+		// The way back passes the same edges, in the other direction
 		for (int i = lens - 2; i > 0; --i)
-			ans.push_back(ans[i]);
+			ans.push_back(i % 2 == 0 ? ans[i] : -ans[i] - 1);
 		ans.push_back(uid);
 		return ans;
 	}
@@ -2176,7 +2177,7 @@ unordered_map<int, vector<int>> PathQueryHandler::SSSP(int uid, bool directed, c
 				{
 					vis.insert(to);
 					res[to] = res[vid];
-					res[to].push_back(pred);
+					res[to].push_back(-pred - 1);
 					res[to].push_back(to);
 					Q.push(to);
 				}
-- 
2.43.0


From 26163dac057c1b42558f28b40089e55942899a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 131/149] fix: self-loops are part of no triangle

---
 Query/PathQueryHandler.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 3267613..aa22e06 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1837,6 +1837,8 @@ long long PathQueryHandler::triangleCounting(bool directed, const std::vector<in
 			}
 		}
 
+		inSet.erase(vid); // a self-loop is part of no triangle
+
 		// directed:
 		// for each out-neighbor, intersect its out-neighbors with the current node's in-neighbors
 		// the size of the intersection is the # of triangles
@@ -1848,13 +1850,15 @@ long long PathQueryHandler::triangleCounting(bool directed, const std::vector<in
 				for (int j = 0; j < outSize; j++)
 				{
 					int outNode = getOutVertID(vid, pred, j);
+					if (outNode == vid)
+						continue;
 					for (int pd : pred_set)
 					{
 						int outOutSize = getOutSize(outNode, pd);
 						for (int k = 0; k < outOutSize; k++)
 						{
 							int outOutNode = getOutVertID(outNode, pd, k);
-							if (inSet.find(outOutNode) != inSet.end())
+							if (outOutNode != outNode && inSet.find(outOutNode) != inSet.end())
 								numTriangle++;
 						}
 					}
@@ -1881,6 +1885,7 @@ long long PathQueryHandler::triangleCounting(bool directed, const std::vector<in
 						nbrs.insert(getInVertID(outNode, pred, k));
 					}
 				}
+				nbrs.erase(outNode);
 				for (int outOutNode : nbrs)
 				{
 					if (inSet.find(outOutNode) != inSet.end())
@@ -2561,6 +2566,8 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 				neighbors.insert(getInVertID(uid, pred, i));
 			}
 		}
+		inSet.erase(uid); // a self-loop is part of no triangle
+		neighbors.erase(uid);
 
 		for (int pred : pred_set)
 		{
@@ -2568,6 +2575,8 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 			for (int j = 0; j < outSize; j++)
 			{
 				int outNode = getOutVertID(uid, pred, j);
+				if (outNode == uid)
+					continue;
 				if (!neighbors.count(outNode))
 					neighbors.insert(outNode);
 				for (int pd : pred_set) // all out neighbors
@@ -2576,7 +2585,7 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 					for (int k = 0; k < outOutSize; k++)
 					{
 						int outOutNode = getOutVertID(outNode, pd, k);
-						if (inSet.count(outOutNode))
+						if (outOutNode != outNode && inSet.count(outOutNode))
 							dins++; // directed neighbors size
 					}
 				}
@@ -2610,6 +2619,7 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 			}
 		}
 
+		neiSet.erase(uid);
 		for (int neiNode : neiSet)
 		{
 			unordered_set<int> nbrs;
@@ -2626,6 +2636,7 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 					nbrs.insert(getInVertID(neiNode, pred, k));
 				}
 			}
+			nbrs.erase(neiNode);
 			for (int outOutNode : nbrs)
 			{
 				if (neiSet.find(outOutNode) != neiSet.end())
@@ -2681,6 +2692,7 @@ double PathQueryHandler::clusteringCoeff(bool directed, const std::vector<int> &
 			}
 		}
 
+		neiSet.erase(curnode); // a self-loop is part of no triplet
 		for (int neiNode : neiSet)
 		{
 			unordered_set<int> neighbors;
@@ -2697,6 +2709,7 @@ double PathQueryHandler::clusteringCoeff(bool directed, const std::vector<int> &
 					neighbors.insert(getInVertID(neiNode, pred, k));
 				}
 			}
+			neighbors.erase(neiNode);
 			for (int outOutNode : neighbors)
 			{
 				if (neiSet.find(outOutNode) != neiSet.end())
-- 
2.43.0


From 7723fa921dbcb123038a3b83b40c7db837b4d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 132/149] fix: k-hop reachability searches every path, in both
 directions of undirected edges

---
 Query/PathQueryHandler.cpp | 360 -------------------------------------
 Query/PathQueryHandler.h   |   1 -
 2 files changed, 361 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index aa22e06..aef2b94 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1047,366 +1047,6 @@ vector<int> PathQueryHandler::shortestPath(int uid, int vid, bool directed, cons
 	@return true if v is reachable from u within k hops, false otherwise.
 */
 bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, const std::vector<int> &pred_set)
-{
-	if (uid == vid)
-		return true;
-	int uOutTotal = 0, vInTotal = 0;
-	for (int pred : pred_set)
-	{
-		uOutTotal += getOutSize(uid, pred);
-		vInTotal += getInSize(vid, pred);
-		if (!directed)
-		{
-			uOutTotal += getInSize(uid, pred);
-			vInTotal += getOutSize(vid, pred);
-		}
-	}
-	if (uOutTotal == 0 || vInTotal == 0)
-		return false;
-
-	// partial push
-	double rmax_fwd = 0.001, rmax_bwd = 0.001;
-	queue<pair<int, int>> candidatePush1;
-	queue<pair<int, int>> candidatePush1_next;
-	queue<pair<int, int>> candidatePush2;
-	queue<pair<int, int>> candidatePush2_next;
-	candidatePush1.push(pair<int, int>(uid, 0));
-	candidatePush2.push(pair<int, int>(vid, 0));
-	map<int, int> residue1, residue2, l1, l2, f1, f2;
-	residue1[uid] = 1;
-	residue2[vid] = 1;
-	l1[uid] = 0;
-	l2[vid] = 0;
-
-	// full push
-	queue<int> fwdQ;
-	queue<int> fwdQ_next;
-	queue<int> bwdQ;
-	queue<int> bwdQ_next;
-	int fullL1 = 0;
-	int fullL2 = 0;
-	fwdQ.push(uid);
-	bwdQ.push(vid);
-	f1[uid] = 0;
-	f2[vid] = 0;
-
-	double theta = 1, c_fora = 0.1, alpha = 0.2;
-	double init_rmax = 100.0 / pow(getEdgeNum(), 3.0 / 4.0) / c_fora;
-	int batchSize = 10;
-	int push_bs = theta * batchSize, bfs_bs = batchSize;
-	int op_cnt;
-	fullL1 = 1;
-	fullL2 = 1;
-	while (fullL1 <= k && fullL2 <= k &&
-		   (!fwdQ.empty() || !fwdQ_next.empty()) && (!bwdQ.empty() || !bwdQ_next.empty()))
-	{
-		op_cnt = 0;
-		while ((!candidatePush1.empty() || !candidatePush1_next.empty()) && op_cnt < push_bs && rmax_fwd > init_rmax)
-		{
-			if (candidatePush1.empty())
-			{
-				swap(candidatePush1, candidatePush1_next);
-				rmax_fwd /= 2;
-				continue;
-			}
-			int curNode = candidatePush1.front().first;
-			int level = candidatePush1.front().second;
-			candidatePush1.pop();
-			op_cnt++;
-			if (level <= k)
-			{
-				if (!directed)
-				{
-					if (residue1[curNode] / getSetOutSize(curNode, pred_set) >= rmax_fwd)
-					{
-						for (int pred : pred_set)
-						{
-							int num_out = getOutSize(curNode, pred);
-							for (int i = 0; i < num_out; i++)
-							{
-								int adj = getOutVertID(curNode, pred, i);
-								if (l1.find(adj) == l1.end())
-								{
-									l1[adj] = level + 1;
-									if (l2.find(adj) != l2.end() && l1[adj] + l2[adj] <= k)
-										return true;
-									if (f2.find(adj) != f2.end() && l1[adj] + f2[adj] <= k)
-										return true;
-									residue1[adj] = (1 - alpha) * residue1[curNode] / getSetOutSize(curNode, pred_set); // Should be equivalent to +=
-									if (residue1[adj] / getSetOutSize(adj, pred_set) >= rmax_fwd)
-										candidatePush1.push(pair<int, int>(adj, level + 1));
-									else
-										candidatePush1_next.push(pair<int, int>(adj, level + 1));
-								}
-							}
-						}
-						residue1[curNode] = 0;
-					}
-					else
-						candidatePush1_next.push(pair<int, int>(curNode, level));
-				}
-
-				else
-				{
-					if (residue1[curNode] / (getSetOutSize(curNode, pred_set) + getSetInSize(curNode, pred_set)) >= rmax_fwd)
-					{
-						for (int pred : pred_set)
-						{
-							int num_out = getOutSize(curNode, pred);
-							for (int i = 0; i < num_out; i++)
-							{
-								int adj = getOutVertID(curNode, pred, i);
-								if (l1.find(adj) == l1.end())
-								{
-									l1[adj] = level + 1;
-									if (l2.find(adj) != l2.end() && l1[adj] + l2[adj] <= k)
-										return true;
-									if (f2.find(adj) != f2.end() && l1[adj] + f2[adj] <= k)
-										return true;
-									residue1[adj] = (1 - alpha) * residue1[curNode] /
-													(getSetOutSize(curNode, pred_set) + getSetInSize(curNode, pred_set)); // Should be equivalent to +=
-									if (residue1[adj] / (getSetOutSize(adj, pred_set) + getSetInSize(adj, pred_set)) >= rmax_fwd)
-										candidatePush1.push(pair<int, int>(adj, level + 1));
-									else
-										candidatePush1_next.push(pair<int, int>(adj, level + 1));
-								}
-							}
-
-							int num_in = getInSize(curNode, pred);
-							for (int i = 0; i < num_in; i++)
-							{
-								int adj = getInVertID(curNode, pred, i);
-								if (l1.find(adj) == l1.end())
-								{
-									l1[adj] = level + 1;
-									if (l2.find(adj) != l2.end() && l1[adj] + l2[adj] <= k)
-										return true;
-									if (f2.find(adj) != f2.end() && l1[adj] + f2[adj] <= k)
-										return true;
-									residue1[adj] = (1 - alpha) * residue1[curNode] /
-													(getSetOutSize(curNode, pred_set) + getSetInSize(curNode, pred_set)); // Should be equivalent to +=
-									if (residue1[adj] / (getSetOutSize(adj, pred_set) + getSetInSize(adj, pred_set)) >= rmax_fwd)
-										candidatePush1.push(pair<int, int>(adj, level + 1));
-									else
-										candidatePush1_next.push(pair<int, int>(adj, level + 1));
-								}
-							}
-						}
-						residue1[curNode] = 0;
-					}
-					else
-						candidatePush1_next.push(pair<int, int>(curNode, level));
-				}
-			}
-		}
-
-		op_cnt = 0;
-		// clock_gettime(CLOCK_MONOTONIC, &start_at);
-		while ((!fwdQ.empty() || !fwdQ_next.empty()) && op_cnt < bfs_bs && fullL1 <= k)
-		{
-			if (fwdQ.empty())
-			{
-				swap(fwdQ, fwdQ_next);
-				fullL1++;
-				continue;
-			}
-			int curNode = fwdQ.front();
-			fwdQ.pop();
-			op_cnt++;
-			for (int pred : pred_set)
-			{
-				int num_out = getOutSize(curNode, pred);
-				for (int i = 0; i < num_out; i++)
-				{
-					int adj = getOutVertID(curNode, pred, i);
-					if (f1.find(adj) == f1.end())
-					{
-						f1[adj] = fullL1;
-						if (l2.find(adj) != l2.end() && f1[adj] + l2[adj] <= k)
-							return true;
-						if (f2.find(adj) != f2.end() && f1[adj] + f2[adj] <= k)
-							return true;
-						fwdQ_next.push(adj);
-					}
-				}
-
-				if (directed)
-					continue;
-
-				int num_in = getInSize(curNode, pred);
-				for (int i = 0; i < num_in; i++)
-				{
-					int adj = getOutVertID(curNode, pred, i);
-					if (f1.find(adj) == f1.end())
-					{
-						f1[adj] = fullL1;
-						if (l2.find(adj) != l2.end() && f1[adj] + l2[adj] <= k)
-							return true;
-						if (f2.find(adj) != f2.end() && f1[adj] + f2[adj] <= k)
-							return true;
-						fwdQ_next.push(adj);
-					}
-				}
-			}
-		}
-		// clock_gettime(CLOCK_MONOTONIC, &end_at);
-		// elapsed = timeDiff(start_at, end_at);
-		// printf("fullL1 = %d, time = %lf ms\n", fullL1, elapsed);
-
-		op_cnt = 0;
-		while ((!candidatePush2.empty() || !candidatePush2_next.empty()) && op_cnt < push_bs && rmax_bwd > init_rmax)
-		{
-			if (candidatePush2.empty())
-			{
-				swap(candidatePush2, candidatePush2_next);
-				rmax_bwd /= 2;
-				continue;
-			}
-			int curNode = candidatePush2.front().first;
-			int level = candidatePush2.front().second;
-			candidatePush2.pop();
-			op_cnt++;
-			if (level <= k)
-			{
-				if (!directed)
-				{
-					if (residue2[curNode] / getSetInSize(curNode, pred_set) >= rmax_bwd)
-					{
-						for (int pred : pred_set)
-						{
-							int num_in = getInSize(curNode, pred);
-							for (int i = 0; i < num_in; i++)
-							{
-								int adj = getInVertID(curNode, pred, i);
-								if (l2.find(adj) == l2.end())
-								{
-									l2[adj] = level + 1;
-									if (l1.find(adj) != l1.end() && l1[adj] + l2[adj] <= k)
-										return true;
-									if (f1.find(adj) != f1.end() && f1[adj] + l2[adj] <= k)
-										return true;
-									residue2[adj] = (1 - alpha) * residue1[curNode] / getSetInSize(curNode, pred_set); // Should be equivalent to +=
-									if (residue2[adj] / getSetInSize(adj, pred_set) >= rmax_fwd)
-										candidatePush2.push(pair<int, int>(adj, level + 1));
-									else
-										candidatePush2_next.push(pair<int, int>(adj, level + 1));
-								}
-							}
-						}
-						residue2[curNode] = 0;
-					}
-					else
-						candidatePush2_next.push(pair<int, int>(curNode, level));
-				}
-				else
-				{
-					if (residue2[curNode] / (getSetInSize(curNode, pred_set) + getSetOutSize(curNode, pred_set)) >= rmax_bwd)
-					{
-						for (int pred : pred_set)
-						{
-							int num_in = getInSize(curNode, pred);
-							for (int i = 0; i < num_in; i++)
-							{
-								int adj = getInVertID(curNode, pred, i);
-								if (l2.find(adj) == l2.end())
-								{
-									l2[adj] = level + 1;
-									if (l1.find(adj) != l1.end() && l1[adj] + l2[adj] <= k)
-										return true;
-									if (f1.find(adj) != f1.end() && f1[adj] + l2[adj] <= k)
-										return true;
-									residue2[adj] = (1 - alpha) * residue1[curNode] /
-													(getSetInSize(curNode, pred_set) + getSetOutSize(curNode, pred_set)); // Should be equivalent to +=
-									if (residue2[adj] / (getSetInSize(adj, pred_set) + getSetOutSize(adj, pred_set)) >= rmax_fwd)
-										candidatePush2.push(pair<int, int>(adj, level + 1));
-									else
-										candidatePush2_next.push(pair<int, int>(adj, level + 1));
-								}
-							}
-
-							int num_out = getOutSize(curNode, pred);
-							for (int i = 0; i < num_out; i++)
-							{
-								int adj = getOutVertID(curNode, pred, i);
-								if (l2.find(adj) == l2.end())
-								{
-									l2[adj] = level + 1;
-									if (l1.find(adj) != l1.end() && l1[adj] + l2[adj] <= k)
-										return true;
-									if (f1.find(adj) != f1.end() && f1[adj] + l2[adj] <= k)
-										return true;
-									residue2[adj] = (1 - alpha) * residue1[curNode] /
-													(getSetInSize(curNode, pred_set) + getSetOutSize(curNode, pred_set)); // Should be equivalent to +=
-									if (residue2[adj] / (getSetInSize(adj, pred_set) + getSetOutSize(adj, pred_set)) >= rmax_fwd)
-										candidatePush2.push(pair<int, int>(adj, level + 1));
-									else
-										candidatePush2_next.push(pair<int, int>(adj, level + 1));
-								}
-							}
-						}
-						residue2[curNode] = 0;
-					}
-					else
-						candidatePush2_next.push(pair<int, int>(curNode, level));
-				}
-			}
-		}
-
-		op_cnt = 0;
-		// clock_gettime(CLOCK_MONOTONIC, &start_at);
-		while ((!bwdQ.empty() || !bwdQ_next.empty()) && op_cnt < bfs_bs && fullL2 <= k)
-		{
-			if (bwdQ.empty())
-			{
-				swap(bwdQ, bwdQ_next);
-				fullL2++;
-				continue;
-			}
-			int curNode = bwdQ.front();
-			bwdQ.pop();
-			op_cnt++;
-			for (int pred : pred_set)
-			{
-				int num_in = getInSize(curNode, pred);
-				for (int i = 0; i < num_in; i++)
-				{
-					int adj = getOutVertID(curNode, pred, i);
-					if (f2.find(adj) == f2.end())
-					{
-						f2[adj] = fullL2;
-						if (l1.find(adj) != l1.end() && l1[adj] + f2[adj] <= k)
-							return true;
-						if (f1.find(adj) != f1.end() && f1[adj] + f2[adj] <= k)
-							return true;
-						fwdQ_next.push(adj);
-					}
-				}
-
-				if (directed)
-					continue;
-
-				int num_out = getOutSize(curNode, pred);
-				for (int i = 0; i < num_out; i++)
-				{
-					int adj = getOutVertID(curNode, pred, i);
-					if (f2.find(adj) == f2.end())
-					{
-						f2[adj] = fullL2;
-						if (l1.find(adj) != l1.end() && l1[adj] + f2[adj] <= k)
-							return true;
-						if (f1.find(adj) != f1.end() && f1[adj] + f2[adj] <= k)
-							return true;
-						fwdQ_next.push(adj);
-					}
-				}
-			}
-		}
-	}
-
-	return false;
-}
-
-bool PathQueryHandler::kHopReachableTest(int uid, int vid, bool directed, int k, const std::vector<int> &pred_set)
 {
 	if (uid == vid)
 		return true;
diff --git a/Query/PathQueryHandler.h b/Query/PathQueryHandler.h
index db11020..10a9466 100644
--- a/Query/PathQueryHandler.h
+++ b/Query/PathQueryHandler.h
@@ -368,7 +368,6 @@ public:
 	std::vector<int> shortestPath(int uid, int vid, bool directed, const std::vector<int> &pred_set);
 	std::vector<int> shortestPath0(int uid, int vid, bool directed, const std::vector<int> &pred_set);
 	bool kHopReachable(int uid, int vid, bool directed, int k, const std::vector<int> &pred_set);
-	bool kHopReachableTest(int uid, int vid, bool directed, int k, const std::vector<int> &pred_set);
 	std::vector<int> kHopReachablePath(int uid, int vid, bool directed, int k, const std::vector<int> &pred_set);
     std::vector<std::pair<std::vector<int>, double>> IC14(int uid, int vid, int knowsPred, int hasCreatorPred,
     int typePred, int replyPred, int postId, int commentId);
-- 
2.43.0


From 119a66cff1db9a84bcad78d668be41f15e0997e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 133/149] fix: the number of subjects follows updates of nodes
 known as objects

---
 Database/Database.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 0b05f7c..51ffefc 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3303,7 +3303,6 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 	{
 		_is_new_sub = true;
 		_sub_id = this->allocEntityID();
-		this->sub_num++;
 		(this->kvstore)->setIDByEntity(_triple.subject, _sub_id);
 		(this->kvstore)->setEntityByID(_sub_id, _triple.subject);
 
@@ -3407,6 +3406,9 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		else
 		{
 			this->triples_num++; // NOTE: triples_num set here
+			// the node may have been there as an object only
+			if (_is_new_sub || this->kvstore->getEntityOutDegree(_sub_id) == 0)
+				this->sub_num++;
 		}
 	}
 
@@ -3974,7 +3976,6 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 	unsigned update_num_o = 0;
 	unsigned update_num_subject = 0;
 	set<TYPE_ENTITY_LITERAL_ID> sub_lists;
-	set<TYPE_ENTITY_LITERAL_ID> obj_lists;
 
 	if (!_is_restore)
 	{
@@ -3989,17 +3990,13 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		if (_sub_id == INVALID_ENTITY_LITERAL_ID)
 		{
 			_sub_id = this->allocEntityID();
-			update_num_subject = update_num_subject + 1;
 			(this->kvstore)->setIDByEntity(_triple.subject, _sub_id);
 			(this->kvstore)->setEntityByID(_sub_id, _triple.subject);
 			vertices.push_back(_sub_id);
-			sub_lists.insert(_sub_id);
 		}
-		else if (obj_lists.find(_sub_id) != obj_lists.end() && sub_lists.find(_sub_id) == sub_lists.end())
-		{
+		// each node that was no subject before becomes one
+		if (sub_lists.insert(_sub_id).second && this->kvstore->getEntityOutDegree(_sub_id) == 0)
 			update_num_subject = update_num_subject + 1;
-			sub_lists.insert(_sub_id);
-		}
 
 		TYPE_PREDICATE_ID _pre_id = (this->kvstore)->getIDByPredicate(_triple.predicate);
 		if (_pre_id == INVALID_PREDICATE_ID)
@@ -4021,7 +4018,6 @@ Database::batch_insert(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 				(this->kvstore)->setIDByEntity(_triple.object, _obj_id);
 				(this->kvstore)->setEntityByID(_obj_id, _triple.object);
 				vertices.push_back(_obj_id);
-				obj_lists.insert(_obj_id);
 			}
 		}
 		else
@@ -4159,6 +4155,11 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		return 0;
 	id_tuples.resize(valid_num);	// the triples whose terms are all known
 
+	set<unsigned> old_subjects;
+	for (auto _sub_id : sub_ids)
+		if (this->kvstore->getEntityOutDegree(_sub_id) != 0)
+			old_subjects.insert(_sub_id);
+
 	sort(id_tuples.begin(), id_tuples.end(), Util::spo_cmp_idtuple);
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
 	id_tuples.erase(new_end, id_tuples.end());
@@ -4195,6 +4196,8 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		for (auto _sub_id : sub_ids)
 		{
 			int sub_degree = (this->kvstore)->getEntityDegree(_sub_id);
+			if (old_subjects.count(_sub_id) != 0 && this->kvstore->getEntityOutDegree(_sub_id) == 0)
+				update_num_subject = update_num_subject + 1;
 			if (sub_degree == 0)
 			{
 				string subject = this->kvstore->getEntityByID(_sub_id);
@@ -4203,8 +4206,6 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 				this->kvstore->subEntityByID(_sub_id);
 				this->kvstore->subIDByEntity(subject);
 				this->freeEntityID(_sub_id);
-				//this->sub_num--;
-				update_num_subject = update_num_subject + 1;
 				vertices.push_back(_sub_id);
 			}
 		}
-- 
2.43.0


From eb1a759fa8c39858f14ce8872c93588a0dc2c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:10 +0000
Subject: [PATCH 134/149] fix: class counts and figures take each effective
 change once, those of transactions at the checkpoint

---
 Database/Database.cpp | 141 ++++++++++++++++++++++++------------------
 Database/Database.h   |   9 ++-
 2 files changed, 88 insertions(+), 62 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 51ffefc..1e87bbd 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -2620,9 +2620,18 @@ void Database::build_s2xx(ID_TUPLE *_p_id_tuples)
 			_p_id_tuples[j] = _p_id_tuples[i];
 			++j;
 		}
+		else if (Util::is_entity_ele(_p_id_tuples[i].objid))
+		{
+			// the parser counted the repeated statement (the dictionaries are closed by now)
+			auto it = this->built_types.find(_p_id_tuples[i].objid);
+			if (it != this->built_types.end() && this->built_type_predicates.count(_p_id_tuples[i].preid) != 0)
+				countType(it->second, -1);
+		}
 	}
 	if (j < this->triples_num)
 		this->triples_num = j;
+	this->built_types.clear();
+	this->built_type_predicates.clear();
 
 	this->kvstore->build_subID2values(_p_id_tuples, this->triples_num, this->entity_num);
 }
@@ -3219,6 +3228,8 @@ bool Database::sub2id_pre2id_obj2id_RDFintoSignature(const string _rdf_file, con
 				// when the predicat is type
 				if (this->checkIsTypePredicate(_pre))
 				{
+					this->built_types.insert(make_pair(_obj_id, _obj));
+					this->built_type_predicates.insert(_pre_id);
 					auto it = this->umap.find(_obj);
 					if (it != this->umap.end())
 					{
@@ -3409,6 +3420,9 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 			// the node may have been there as an object only
 			if (_is_new_sub || this->kvstore->getEntityOutDegree(_sub_id) == 0)
 				this->sub_num++;
+			string _pre = _triple.getPredicate();
+			if (is_obj_entity && this->checkIsTypePredicate(_pre))
+				countType(_triple.object, 1);
 		}
 	}
 
@@ -3532,18 +3546,8 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 					_vertices->push_back(_obj_id);
 			}
 			string _pre = _triple.getPredicate();
-			string _obj = _triple.getObject();
 			if (this->checkIsTypePredicate(_pre))
-			{
-				auto it = this->umap.find(_obj);
-				if (it != this->umap.end())
-				{
-					if (it->second <= 1)
-						umap.erase(it);
-					else
-						it->second = it->second - 1;
-				}
-			}
+				countType(_triple.object, -1);
 		}
 		else
 		{
@@ -4291,13 +4295,13 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 				{
 					if (type == UPDATE_TYPE::SUBJECT_INSERT)
 					{
+						updateUmap(type, sub_id, data);
 						update_num += this->kvstore->updateInsert_s2values(sub_id, data);
-						updateUmap(type, data);
 					}
 					else if (type == UPDATE_TYPE::SUBJECT_REMOVE)
 					{
+						updateUmap(type, sub_id, data);
 						update_num += this->kvstore->updateRemove_s2values(sub_id, data);
-						updateUmap(type, data);
 					}
 				}
 				else
@@ -4313,13 +4317,13 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 		{
 			if (type == UPDATE_TYPE::SUBJECT_INSERT)
 			{
+				updateUmap(type, sub_id, data);
 				update_num += this->kvstore->updateInsert_s2values(sub_id, data);
-				updateUmap(type, data);
 			}
 			else if (type == UPDATE_TYPE::SUBJECT_REMOVE)
 			{
+				updateUmap(type, sub_id, data);
 				update_num += this->kvstore->updateRemove_s2values(sub_id, data);
-				updateUmap(type, data);
 			}
 		}
 		else
@@ -4384,12 +4388,10 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 					if (type == UPDATE_TYPE::OBJECT_INSERT)
 					{
 						update_num += this->kvstore->updateInsert_o2values(obj_id, data);
-						updateUmap(type, data);
 					}
 					else if (type == UPDATE_TYPE::OBJECT_REMOVE)
 					{
 						update_num += this->kvstore->updateRemove_o2values(obj_id, data);
-						updateUmap(type, data);
 					}
 				}
 				else
@@ -4409,12 +4411,10 @@ void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _tri
 			if (type == UPDATE_TYPE::OBJECT_INSERT)
 			{
 				update_num += this->kvstore->updateInsert_o2values(obj_id, data);
-				updateUmap(type, data);
 			}
 			else if (type == UPDATE_TYPE::OBJECT_REMOVE)
 			{
 				update_num += this->kvstore->updateRemove_o2values(obj_id, data);
-				updateUmap(type, data);
 			}
 		}
 		else
@@ -4782,11 +4782,35 @@ bool Database::getFinalResult(SPARQLquery &_sparql_q, ResultSet &_result_set)
 	return true;
 }
 
+void Database::countSubject(TYPE_ENTITY_LITERAL_ID _sub_id, int _change)
+{
+	unsigned *_list = NULL;
+	unsigned _len = 0;
+	this->kvstore->getpreIDobjIDlistBysubID(_sub_id, _list, _len);
+	if (_len > 0)
+		this->sub_num += _change;
+	this->triples_num += (long long)_change * (_len / 2);
+	for (unsigned i = 0; i + 1 < _len; i += 2)
+	{
+		if (!Util::is_entity_ele(_list[i + 1]))
+			continue;
+		string _pre = this->kvstore->getPredicateByID(_list[i]);
+		if (this->checkIsTypePredicate(_pre))
+			countType(this->kvstore->getEntityByID(_list[i + 1]), _change);
+	}
+	delete[] _list;
+}
+
 // garbage clean
 void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids, vector<unsigned> &obj_literal_ids, vector<unsigned> &pre_ids)
 {
 	// vector<unsigned> sub_ids , obj_ids, obj_literal_ids, pre_ids;
+	// the triples of the changed subjects count as they are before and after
+	for (auto &_sub_id : sub_ids)
+		countSubject(_sub_id, -1);
 	(this->kvstore)->IVArrayVacuum(sub_ids, obj_ids, obj_literal_ids, pre_ids);
+	for (auto &_sub_id : sub_ids)
+		countSubject(_sub_id, 1);
 	vector<TYPE_ENTITY_LITERAL_ID> vertices, predicates;
 	// update
 	int sub_degree, obj_degree, pre_degree;
@@ -4805,7 +4829,6 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 			this->kvstore->subIDByEntity(sub_str);
 			this->kvstore->subEntityByID(_sub_id);
 			this->freeEntityID(_sub_id);
-			this->sub_num--;
 			// update the string buffer
 			// if (_sub_id < this->entity_buffer_size)
 			//{
@@ -4994,46 +5017,42 @@ unordered_map<string, unsigned long long> Database::getStatisticsInfo()
 	return this->umap;
 }
 
-void Database::updateUmap(UPDATE_TYPE type, const std::vector<unsigned>& _pidoidlist)
+// to be called before the change is made: only triples that come or go count
+void Database::updateUmap(UPDATE_TYPE type, TYPE_ENTITY_LITERAL_ID _sub_id, const std::vector<unsigned>& _pidoidlist)
 {
-	umap_lock.lock();
-	for(unsigned i = 0; i < _pidoidlist.size(); i += 2)
-    {
-		TYPE_ENTITY_LITERAL_ID preid = _pidoidlist[i];
+	for (unsigned i = 0; i < _pidoidlist.size(); i += 2)
+	{
+		TYPE_PREDICATE_ID preid = _pidoidlist[i];
 		TYPE_ENTITY_LITERAL_ID objid = _pidoidlist[i+1];
-		if (type == UPDATE_TYPE::SUBJECT_INSERT)
-		{
-			string _obj = this->kvstore->getEntityByID(objid);
-			string _pre = this->kvstore->getPredicateByID(preid);
-			if (!_obj.empty() && this->checkIsTypePredicate(_pre))
-			{
-				auto it = this->umap.find(_obj);
-				if (it != this->umap.end())
-				{
-					it->second = it->second + 1;
-				}
-				else
-				{
-					this->umap.insert(pair<string, unsigned long long>(_obj, 1));
-				}
-			}
-		}
-		else if (type == UPDATE_TYPE::SUBJECT_REMOVE)
-		{
-			string _obj = this->kvstore->getEntityByID(objid);
-			string _pre = this->kvstore->getPredicateByID(preid);
-			if (!_obj.empty() && this->checkIsTypePredicate(_pre))
-			{
-				auto it = this->umap.find(_obj);
-				if (it != this->umap.end())
-				{
-					if (it->second <= 1)
-						umap.erase(it);
-					else
-						it->second = it->second - 1;
-				}
-			}
-		}
-    }
-	umap_lock.unlock();
-}
\ No newline at end of file
+		if (!Util::is_entity_ele(objid))
+			continue;
+		string _pre = this->kvstore->getPredicateByID(preid);
+		if (!this->checkIsTypePredicate(_pre))
+			continue;
+		bool _exist = this->exist_triple(_sub_id, preid, objid, nullptr);
+		if (type == UPDATE_TYPE::SUBJECT_INSERT && !_exist)
+			countType(this->kvstore->getEntityByID(objid), 1);
+		else if (type == UPDATE_TYPE::SUBJECT_REMOVE && _exist)
+			countType(this->kvstore->getEntityByID(objid), -1);
+	}
+}
+
+void Database::countType(const string &_class, int _change)
+{
+	lock_guard<mutex> umap_guard(umap_lock);
+	auto it = this->umap.find(_class);
+	if (_change > 0)
+	{
+		if (it != this->umap.end())
+			it->second = it->second + 1;
+		else
+			this->umap.insert(pair<string, unsigned long long>(_class, 1));
+	}
+	else if (it != this->umap.end())
+	{
+		if (it->second <= 1)
+			umap.erase(it);
+		else
+			it->second = it->second - 1;
+	}
+}
diff --git a/Database/Database.h b/Database/Database.h
index 88ce31b..b4ec521 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -217,6 +217,9 @@ private:
 
 	// the unordered_map for store the statistic data of entitys
 	unordered_map<string, unsigned long long> umap;
+	// while building: the objects and the predicates umap counts
+	unordered_map<TYPE_ENTITY_LITERAL_ID, string> built_types;
+	unordered_set<TYPE_PREDICATE_ID> built_type_predicates;
 
 	// Trie *trie;
 
@@ -366,7 +369,11 @@ private:
 	bool restore_update(multiset<string> &_i, multiset<string> &_r);
 	void clear_update_log();
 	bool write_update_log(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num, int type, shared_ptr<Transaction> txn);
-	void updateUmap(UPDATE_TYPE type, const std::vector<unsigned>& _pidoidlist);
+	void updateUmap(UPDATE_TYPE type, TYPE_ENTITY_LITERAL_ID _sub_id, const std::vector<unsigned>& _pidoidlist);
+	// one triple whose object is the class comes or goes
+	void countType(const string &_class, int _change);
+	// all triples of a subject come or go
+	void countSubject(TYPE_ENTITY_LITERAL_ID _sub_id, int _change);
 };
 
 #endif //_DATABASE_DATABASE_H
-- 
2.43.0


From 73fe4cec3e2ce76fdc604315339fd6ab4d8f0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 135/149] fix: saving and checkpoints keep the class counts

---
 Database/Database.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 1e87bbd..0fe7ae0 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1618,6 +1618,7 @@ bool Database::save()
 {
 	this->kvstore->flush();
 	this->saveDBInfoFile();
+	this->saveStatisticsInfoFile();
 	this->saveIDinfo();
 
 	this->stringindex->flush();
@@ -4811,6 +4812,7 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 	(this->kvstore)->IVArrayVacuum(sub_ids, obj_ids, obj_literal_ids, pre_ids);
 	for (auto &_sub_id : sub_ids)
 		countSubject(_sub_id, 1);
+	this->saveStatisticsInfoFile();
 	vector<TYPE_ENTITY_LITERAL_ID> vertices, predicates;
 	// update
 	int sub_degree, obj_degree, pre_degree;
-- 
2.43.0


From 807e3b0352f0a3dbb2a24672ca3a99e3fadbd855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 136/149] fix: archives with directories are unpacked, and only
 inside their own directory

---
 Util/CompressFileUtil.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Util/CompressFileUtil.cpp b/Util/CompressFileUtil.cpp
index 66a3bc1..3f31ffe 100644
--- a/Util/CompressFileUtil.cpp
+++ b/Util/CompressFileUtil.cpp
@@ -100,7 +100,9 @@ namespace CompressUtil
             return false;
         }
         int zip64 = isLargeFile(dst_path.c_str());
-        if (zipOpenNewFileInZip64(zfile, dst_path.c_str(), nullptr, nullptr, 0 , nullptr , 0, nullptr, Z_DEFLATED, Z_DEFLATED, zip64) != ZIP_OK)
+        // the entry carries the name of the file, not the directories it lies in
+        std::string entry_name = dst_path.substr(dst_path.find_last_of('/') + 1);
+        if (zipOpenNewFileInZip64(zfile, entry_name.c_str(), nullptr, nullptr, 0 , nullptr , 0, nullptr, Z_DEFLATED, Z_DEFLATED, zip64) != ZIP_OK)
         {
             zipClose(zfile, nullptr);
             return false;
@@ -202,11 +204,17 @@ namespace CompressUtil
         if (err!=UNZ_OK)
             return false;
 
-        std::string file_path = getDirPath() + "/" + filename;
+        // an entry must stay inside the directory
+        std::string entry_name = filename;
+        if (entry_name.empty() || entry_name[0] == '/' || ("/" + entry_name + "/").find("/../") != std::string::npos)
+            return false;
+        std::string file_path = getDirPath() + "/" + entry_name;
         std::cout<<"unCompress start:file_path"<<file_path<<"size:"<<file_info.uncompressed_size<<std::endl;
+        // directories may have no entry of their own
+        for (size_t pos = getDirPath().length() + 1; (pos = file_path.find('/', pos)) != std::string::npos; ++pos)
+            mkdir(file_path.substr(0, pos).c_str(), 0775);
         if (FileHelper::isFileDir(filename))
         {
-            mkdir(file_path.c_str(), 0775);
             unzCloseCurrentFile(unfile);
             return true;
         }
-- 
2.43.0


From 770696b12484ed7e4cc362f80029a5b868cf9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 137/149] fix: gconsole: the end of the input at a password
 prompt does not log in

---
 Main/gconsole.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 9514b49..fad79a2 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -511,15 +511,15 @@ int enter_pswd(string prompt)
 	while (wrong_pswd_cnt < MAX_WRONG_PSWD_TIMES)
 	{
 		cout << prompt;
-		char c;
+		int c;
 		while ((c = getchar()) != -1 && c != '\n' && c != '\r')
 		{
 			pswd.push_back(c);
 		}
-		if (feof(stdin))
+		if (c == -1)
 		{
 			cout << "End of stdin!" << endl;
-			return 0;
+			return -1;
 		}
 		cout << endl;
 		if (pswd == stdpswd)
-- 
2.43.0


From 123de177c8d73bc84f462c9c7e784878f76377fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 138/149] fix: gconsole: updates need the update privilege

---
 Main/gconsole.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index fad79a2..4a6a6b5 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -1493,13 +1493,21 @@ int raw_sparql_handler(string query)
 	try
 	{
 		_rs.setUsername(usrname);
-		ret = current_database->query(query, _rs, ofp, true, export_flag, nullptr);
+		// an update needs the privilege of its own
+		unsigned priv = get_priv(usrname, current_database->getName());
+		bool update_flag = priv == ROOT_PRIVILEGE_BIT || (priv != -1u && (priv & UPDATE_PRIVILEGE_BIT) != 0);
+		ret = current_database->query(query, _rs, ofp, update_flag, export_flag, nullptr);
 	}
 	catch (const std::exception &e)
 	{
 		cout << "raw sparql Exception: " << e.what() << endl;
 		return -1;
 	}
+	catch (const string &msg) // an update without the privilege
+	{
+		cout << "raw sparql Exception: " << msg << endl;
+		return -1;
+	}
 	current_database->save();
 	if ((ret <= -100 && ret != -100) || (ret > -100 && ret < 0)) // select query failed or update query failed
 	{
-- 
2.43.0


From a914fbba26e42017e38387c438fb11c4cf9bd7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 139/149] fix: gconsole: a ; inside a command does not end it

---
 Main/gconsole.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 4a6a6b5..1c143a7 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -237,7 +237,6 @@ unsigned get_priv(string usr, string db_name);
 /*                                                                  */
 /* **************************************************************** */
 bool gconsole_done = false; // 1: quit
-bool gconsole_eoq = false;	// 1: current command input done
 // bool gconsole_inputing = false; // 1: still inputing current command: control prompt
 
 pthread_t child_th = 0;
@@ -1213,7 +1212,6 @@ char **gconsole_completion(const char *, int, int);
 int gconsole_bind_cr(int count, int key);
 // TODO: bind backspace and delete key to better support cross line command editing
 // note: binding to '\b''\d' or 8 46 takes no effect
-int gconsole_bind_eoq(int count, int key);
 // int gconsole_bind_del(int count, int key);
 // /*delete edit*/
 // int gconsole_bind_del(int count, int key)
@@ -1284,7 +1282,6 @@ void initialize_readline()
 	// function is the address of the function to call when key is pressed
 	rl_bind_key('\n', gconsole_bind_cr);
 	rl_bind_key('\r', gconsole_bind_cr);
-	rl_bind_key(';', gconsole_bind_eoq);
 }
 
 /* Attempt to complete on the contents of TEXT. START and END bound the
@@ -1341,13 +1338,17 @@ command_generator(const char *text, int state)
 	return (char *)NULL;
 }
 
-/* send for exec, if a command has already finished */
+/* send for exec, if a command has already finished: the last character of the line is ; */
 int gconsole_bind_cr(int count, int key)
 {
-	if (gconsole_eoq == 1)
+	int len = rl_end;
+	while (len > 0 && (rl_line_buffer[len - 1] == ' ' || rl_line_buffer[len - 1] == '\t'))
+		--len;
+	if (len > 0 && rl_line_buffer[len - 1] == ';')
 	{
+		rl_delete_text(len - 1, rl_end); // the ; is no part of the command
+		rl_point = rl_end;
 		rl_done = 1;
-		gconsole_eoq = 0; // clear eoq flag
 		// printf("\n");
 		rl_crlf();
 	}
@@ -1361,14 +1362,6 @@ int gconsole_bind_cr(int count, int key)
 	return 0;
 }
 
-/* command ends with ; */
-int gconsole_bind_eoq(int count, int key)
-{
-	gconsole_eoq = 1;
-	printf(";");
-	return 0;
-}
-
 /* **************************************************************** */
 /*                                                                  */
 /*                       gconsole commands                          */
-- 
2.43.0


From c0f25c18cbba6f39f7289c1cb1c5b5f43d1f3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 140/149] fix: gconsole: backup creates a missing directory,
 understands -T and reports failures

---
 Main/gconsole.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 1c143a7..aa30d5a 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2201,8 +2201,15 @@ int backup_handler(const vector<string> &args)
 	// rename backup folder with current timestamp
 	string timestamp = Util::get_timestamp();
 	string new_folder = db_name + db_suffix + "_" + timestamp;
-	string sys_cmd = "mv " + default_backup_path + "/" + db_name + db_suffix + " " + backup_path + "/" + new_folder;
-	system(sys_cmd.c_str());
+	if (!Util::dir_exist(backup_path))
+		Util::create_dirs(backup_path);
+	string sys_cmd = "mv -T " + default_backup_path + "/" + db_name + db_suffix + " " + backup_path + "/" + new_folder;
+	// never onto or into a backup of the same second
+	if (Util::dir_exist(backup_path + "/" + new_folder) || system(sys_cmd.c_str()) != 0)
+	{
+		cout << "Database " << current_database->getName() << " backup failed." << endl;
+		return -1;
+	}
 
 	cout << "Database " << current_database->getName() << " backup successfully." << endl;
 	return 0;
-- 
2.43.0


From 42d1ba66133e35f39c12040e6a199de4148957dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 141/149] fix: gconsole: setpswd copes with a user without a
 password

---
 Main/gconsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index aa30d5a..451d3fa 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2500,7 +2500,7 @@ int setpswd_handler(const vector<string> &args)
 
 	// write new_pswd(for tar_usr) to sysdb: delete then insert
 	string query = "DELETE WHERE { <" + tar_usr + "> <has_password> ?pswd. }; INSERT DATA { <" + tar_usr + "> <has_password> \"" + new_pswd + "\". }";
-	vector<ResultSet> rs;
+	vector<ResultSet> rs(2);
 	vector<int> re = silence_sysdb_query(query, rs);
 	if (re.size() != 2 || re[0] || re[1])
 	{
-- 
2.43.0


From aa8211038f9bc85ab7e0abeb678ecfb744f86baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 142/149] fix: gconsole: setpriv can take all privileges away

---
 Main/gconsole.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 451d3fa..0623146 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2611,7 +2611,10 @@ int setpriv_handler(const vector<string> &args)
 	// write to sysdb
 
 	// setpriv <usrname> <database_name>
-	string query = "DELETE WHERE { <" + usr + "> ?y <" + db + ">. };\n INSERT DATA { ";
+	string query = "DELETE WHERE { <" + usr + "> ?y <" + db + ">. }";
+	size_t query_num = priv ? 2 : 1; // no privilege: nothing to insert
+	if (priv)
+		query += ";\n INSERT DATA { ";
 	priv = (priv >> 1); // shift root bit
 	for (int i = 1; i < PRIVILEGE_NUM; ++i)
 	{
@@ -2621,11 +2624,12 @@ int setpriv_handler(const vector<string> &args)
 		}
 		priv = (priv >> 1);
 	}
-	query += " }";
+	if (query_num == 2)
+		query += " }";
 
 	vector<ResultSet> rs(2);
 	vector<int> re = silence_sysdb_query(query, rs);
-	if (re.size() != 2 || re[0] || re[1])
+	if (re.size() != query_num || re[0] || re.back())
 	{
 		cout << "System db update failed. Privilege set failed." << endl;
 		return -1;
-- 
2.43.0


From d223c8b7c9e0306ebd853106ef1cbca02f663d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 143/149] fix: gconsole: sparql files may have ; and # inside
 IRIs and literals

---
 Main/gconsole.cpp | 81 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 0623146..a02dab7 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -1589,6 +1589,53 @@ void replace_cr(string &line)
 	}
 }
 
+// split a text into its queries: separated by ; outside braces, without the comments (from # to the end of the line).
+// neither counts inside IRIs and literals
+vector<string> split_sparql(const string &text)
+{
+	vector<string> queries(1);
+	int depth = 0;
+	size_t i = 0, sz = text.size();
+	while (i < sz)
+	{
+		char c = text[i];
+		size_t end = i + 1; // [i, end) is copied
+		if (c == '#')
+		{
+			i = text.find('\n', i);
+			if (i == string::npos)
+				break;
+			continue;
+		}
+		if (c == '"' || c == '\'')
+		{
+			while (end < sz && text[end] != c && text[end] != '\n')
+				end += (text[end] == '\\') ? 2 : 1;
+			end = min(end + 1, sz);
+		}
+		else if (c == '<')
+		{
+			// an IRI, unless it is the operator
+			size_t close = text.find_first_of("<>\"{}|^`\\ \t\r\n", i + 1);
+			if (close != string::npos && text[close] == '>')
+				end = close + 1;
+		}
+		else if (c == '{')
+			++depth;
+		else if (c == '}')
+			--depth;
+		else if (c == ';' && depth <= 0)
+		{
+			queries.push_back("");
+			++i;
+			continue;
+		}
+		queries.back() += text.substr(i, end - i);
+		i = end;
+	}
+	return queries;
+}
+
 int sparql_handler(const vector<string> &args)
 {
 	CHECK_ARGC(1, 1)
@@ -1604,37 +1651,13 @@ int sparql_handler(const vector<string> &args)
 		cout << "File open failed: " << args[0] << endl;
 		return -1;
 	}
-	string line;
-	while (getline(fin, line, ';'))
+	string text((istreambuf_iterator<char>(fin)), istreambuf_iterator<char>());
+	for (string sparql : split_sparql(text))
 	{
-		/*parse one sparql*/
-		line.push_back('#');
-		// deal with #: look for #, the content after it and before the nearest \n is comments
-		string sparql;
-		int i = 0, sz = line.size();
-		int seg_start_pos = 0;
-		while (i < sz)
-		{
-			// met a new comment: [seg_start_pos,i) -> sparql
-			// if seg_start_pos<0, it means we have met a # but haven't met a \n, so it's inside a comment
-			if (line[i] == '#' && seg_start_pos >= 0)
-			{
-				sparql += line.substr(seg_start_pos, i - seg_start_pos);
-				seg_start_pos = -1; // mark as meeting #
-			}
-			// have met a # before, now meet \n
-			else if (line[i] == '\n' && seg_start_pos == -1)
-			{
-				seg_start_pos = i + 1;
-				sparql.push_back('\n');
-			}
-			++i;
-		}
-
-		/*query sparql*/
 		sparql = stripwhite(sparql);
-
-		if (sparql.empty() == 0 && raw_sparql_handler(sparql))
+		if (sparql.find_first_not_of(" \t\r\n") == string::npos)
+			continue;
+		if (raw_sparql_handler(sparql))
 		{
 			cout << "Query failed: " << sparql << endl;
 		}
-- 
2.43.0


From 3c91ec8b8abaf8e76457c57866015c75a833c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 144/149] fix: gconsole: delusr and drop remove the privileges

---
 Main/gconsole.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index a02dab7..048151d 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2140,7 +2140,10 @@ int drop_handler(const vector<string> &args)
 	// string sparql = "DELETE WHERE { <" + db_name + "> ?x ?y. }; DELETE WHERE { ?x ?y <" + db_name + ">. }";
 	//! NOTE to Main/gdrop.cpp: DELETE WHERE { ?x ?y \"" + db_name + "\" is needed too! But gdrop.cpp doesn't contain it
 	string sparql = "DELETE WHERE {<" + db_name + "> <built_by> ?y.}; DELETE WHERE {<" + db_name + "> <built_time> ?y.}; DELETE WHERE {<" + db_name + "> <database_status> ?y.}";
-	vector<ResultSet> rs(3);
+	// the privileges end with the database
+	for (auto p : privstr2bitset)
+		sparql += "; DELETE WHERE {?x " + p.first + " <" + db_name + ">.}";
+	vector<ResultSet> rs(3 + privstr2bitset.size());
 	vector<int> ret = silence_sysdb_query(sparql, rs);
 	if (ret[0] || ret[1] || ret[2])
 	{
@@ -2704,12 +2707,18 @@ int adddelusr_handler(int add, string usr)
 			return -1;
 		}
 		query = "DELETE WHERE { <" + usr + "> <has_password> ?y. }";
+		// the privileges end with the user
+		for (auto p : privstr2bitset)
+			query += "; DELETE WHERE { <" + usr + "> " + p.first + " ?y. }";
 	}
-
-	if (silence_sysdb_query(query, rs))
+	vector<ResultSet> update_rs(1 + privstr2bitset.size());
+	for (int ret : silence_sysdb_query(query, update_rs))
 	{
-		cout << "System db update failed." << endl;
-		return -1;
+		if (ret)
+		{
+			cout << "System db update failed." << endl;
+			return -1;
+		}
 	}
 	return 0;
 }
-- 
2.43.0


From 30c781035f9e1dc5d06787c28397b12067e6f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 145/149] fix: gconsole: setpriv closes the system database it
 opened before it is changed again

---
 Main/gconsole.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 048151d..e2aec8a 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2588,13 +2588,10 @@ int setpriv_handler(const vector<string> &args)
 		cout << "Root has all privilege on all databases. No need to set root's privilege.\nPrivilege set failed." << endl;
 		return -1;
 	}
-	Database system_db("system");
-	system_db.load();
+	// the system database must not stay open here: closing it after the update below would put its old figures back
 	string sparql = "ASK WHERE{<" + db + "> <database_status> \"already_built\".}";
 	ResultSet ask_rs;
-	FILE* ask_ofp = stdout;
-	system_db.query(sparql, ask_rs, ask_ofp);
-	if (ask_rs.answer[0][0] == "\"false\"^^<http://www.w3.org/2001/XMLSchema#boolean>")
+	if (silence_sysdb_query(sparql, ask_rs) || ask_rs.answer[0][0] == "\"false\"^^<http://www.w3.org/2001/XMLSchema#boolean>")
 	{
 		cout << "Database " << db << " does not exist. \nPrivilege set failed." << endl;
 		return -1;
-- 
2.43.0


From 326f3435370c3182008b25892e347c9ceacb2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 146/149] fix: gconsole: the newline after a typed password is
 no command

---
 Main/gconsole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index e2aec8a..ec7f3b9 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2512,9 +2512,11 @@ int setpswd_handler(const vector<string> &args)
 		++not_match_cnt;
 		cout << "Enter new password: ";
 		cin >> new_pswd;
+		getchar(); // absorb the '\n', or the next password read is empty
 		cout << endl;
 		cout << "Enter new password again: ";
 		cin >> confirm;
+		getchar(); // absorb the '\n', or the next password read is empty
 		cout << endl;
 	} while (not_match_cnt < MAX_WRONG_PSWD_TIMES && confirm != new_pswd);
 
@@ -2694,6 +2696,7 @@ int adddelusr_handler(int add, string usr)
 		cout << "Enter password for new user: ";
 		string new_pswd;
 		cin >> new_pswd;
+		getchar(); // absorb the '\n', or the next password read is empty
 		query = "INSERT DATA { <" + usr + "> <has_password> \"" + new_pswd + "\". }";
 	}
 	else
-- 
2.43.0


From 57ba2bff44443dc82f23d3c2282c6d5c16ddd425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 147/149] fix: building a database whose directory cannot be
 created fails instead of ending the server

---
 Database/Database.cpp | 14 ++++++++++----
 Database/Database.h   |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 0fe7ae0..5b6e6a3 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -2030,9 +2030,14 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 // In distributed gStore, each machine's graph should be based on unique encoding IDs,
 // and require that triples in each graph no more than a limit(maybe 10^9)
 
-void Database::InitEmptyDB() {
+bool Database::InitEmptyDB() {
     this->resetIDinfo();
 	Util::create_dir(this->store_path);
+	if (!Util::dir_exist(this->store_path))
+	{
+		cout << "The directory of the database can not be created: " << this->store_path << endl;
+		return false;
+	}
 
 	string kv_store_path = store_path + "/kv_store";
 	Util::create_dir(kv_store_path);
@@ -2048,6 +2053,7 @@ void Database::InitEmptyDB() {
 	string error_log = this->store_path + "/parse_error.log";
 	Util::create_file(error_log);
     cout << "Error log file:" << error_log << endl;
+	return true;
 }
 
 void Database::BuildEmptyKVstore() {
@@ -2069,7 +2075,7 @@ void Database::BuildEmptyKVstore() {
 }
 
 bool Database::BuildEmptyDB() {
-    InitEmptyDB();
+    if (!InitEmptyDB()) return false;
     BuildEmptyKVstore();
     string _six_tuples_file = this->getSixTuplesFile();
 	ofstream _six_tuples_fout(_six_tuples_file.c_str());
@@ -2098,7 +2104,7 @@ bool Database::build(const string &_rdf_file, Socket &socket)
 {
 	string ret = Util::getExactPath(_rdf_file.c_str());
 	long tv_build_begin = Util::get_cur_time();
-	InitEmptyDB();
+	if (!InitEmptyDB()) return false;
 	string msg = "begin encode RDF from : " + ret + " ...";
 	cout << msg << endl;
 	string resJson = CreateJson(1, "building", msg);
@@ -2146,7 +2152,7 @@ bool Database::build(const string &_rdf_file)
 
 	// manage the id for a new database
 	string ret = Util::getExactPath(_rdf_file.c_str());
-	InitEmptyDB();
+	if (!InitEmptyDB()) return false;
 	string error_log = this->store_path + "/parse_error.log";
 	FILE *fp = fopen(error_log.c_str(), "a");
 	string log_msg = "Info " + Util::get_date_time() + " build parser info, file path " + ret + "\n";
diff --git a/Database/Database.h b/Database/Database.h
index b4ec521..55c1c7b 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -51,7 +51,7 @@ public:
 	// 2. assign new tuple_id to tuple, if predicate or object doesn't exist before too;
 	// 3. if subject exist, update SigEntry, and update spo, ops... etc. if needed
 
-	void InitEmptyDB();
+	bool InitEmptyDB();
 	void BuildEmptyKVstore();
 	bool BuildEmptyDB();
 	bool build(const string &_rdf_file, Socket &socket);
-- 
2.43.0


From 5ff10c3e297ce03a7174facf4fda9621fb5c69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 148/149] fix: transaction log lines of any length are updated

---
 GRPC/APIUtil.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 82f744a..0ab71ed 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -2374,10 +2374,11 @@ int APIUtil::update_transactionlog(std::string TID, std::string state, std::stri
     pthread_rwlock_wrlock(&transactionlog_lock);
     FILE* fp = fopen(TRANSACTION_LOG_PATH, "r");
     FILE* fp1 = fopen(TRANSACTION_LOG_TEMP_PATH, "w");
-    char readBuffer[0xffff];
+    char *readBuffer = nullptr;
+    size_t readBufferSize = 0;
     int ret = 0;
     struct TransactionLogInfo *logInfo = nullptr;
-    while (fgets(readBuffer, 1024, fp)) {
+    while (::getline(&readBuffer, &readBufferSize, fp) != -1) {
         string rec = readBuffer;
         logInfo = new TransactionLogInfo(rec);
         if (logInfo->getTID() != TID) {
@@ -2410,6 +2411,7 @@ int APIUtil::update_transactionlog(std::string TID, std::string state, std::stri
         delete logInfo;
         logInfo = NULL;
     }
+    free(readBuffer);
     fclose(fp);
     fclose(fp1);
     Util::remove_path(TRANSACTION_LOG_PATH);
@@ -2501,9 +2503,10 @@ void APIUtil::abort_transactionlog(long end_time)
     pthread_rwlock_wrlock(&transactionlog_lock);
     FILE* fp = fopen(TRANSACTION_LOG_PATH, "r");
     FILE* fp1 = fopen(TRANSACTION_LOG_TEMP_PATH, "w");
-    char readBuffer[0xffff];
+    char *readBuffer = nullptr;
+    size_t readBufferSize = 0;
     struct TransactionLogInfo *logInfo = nullptr;
-    while (fgets(readBuffer, 1024, fp)) {
+    while (::getline(&readBuffer, &readBufferSize, fp) != -1) {
         string rec = readBuffer;
         logInfo = new TransactionLogInfo(rec);
         if (logInfo->getState() == "RUNNING") 
@@ -2521,6 +2524,7 @@ void APIUtil::abort_transactionlog(long end_time)
         delete logInfo;
         logInfo = NULL;
     }
+    free(readBuffer);
     fclose(fp);
     fclose(fp1);
     Util::remove_path(TRANSACTION_LOG_PATH);
-- 
2.43.0


From 52a50975a0de83d9eb7b56cadc04bffa3ca68e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:06 +0000
Subject: [PATCH 149/149] fix: rename of a database fails when its directory
 cannot be renamed

---
 Main/ghttp.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index c0fc41b..b71b996 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -5570,8 +5570,14 @@ void rename_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 		// mv old folder to new folder
 		string db_path = _db_home + "/" + db_name + _db_suffix;
 		string sys_cmd = "mv " + db_path + " " + new_db_path;
-		std::system(sys_cmd.c_str());
+		int status = std::system(sys_cmd.c_str());
 		apiUtil->unlock_databaseinfo(db_info);
+		if (status != 0)
+		{
+			error = "Database local path " + db_path + " can not be renamed to " + new_db_path + ".";
+			sendResponseMsg(1005, error, operation, request, response);
+			return;
+		}
 		// insert new_name
 		apiUtil->add_already_build(new_name, db_info->getCreator(), db_info->getTime());
 		// copy privileges
-- 
2.43.0

