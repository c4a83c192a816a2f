From f45a4da44818b3e3ff21795e530185293bd80eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 01/81] fix: queries on StlPhraseTable do not add the queried
 target phrase

---
 src/phrase_models/StlPhraseTable.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/phrase_models/StlPhraseTable.cc b/src/phrase_models/StlPhraseTable.cc
index 512ba01..358a2b7 100644
--- a/src/phrase_models/StlPhraseTable.cc
+++ b/src/phrase_models/StlPhraseTable.cc
@@ -317,6 +317,10 @@ Count StlPhraseTable::getSrcTrgInfo(const std::vector<WordIndex>& s,
                                     const std::vector<WordIndex>& t,
                                     bool &found)
 {
+    // A query must not add the target phrase to the table
+    found = trgPhraseInfo.find(t) != trgPhraseInfo.end();
+    if (!found) return 0;
+
     SrcTrgKey srcTrgKey = getSrcTrgKey(s, t, found);
     if (!found) return 0;
 
@@ -390,6 +394,10 @@ bool StlPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     bool found;
     srctn.clear();  // Make sure that structure does not keep old values
 
+    // A query must not add the target phrase to the table
+    if (srcPhraseInfo.empty() || trgPhraseInfo.find(t) == trgPhraseInfo.end())
+        return false;
+
     // Prepare iterators
     SrcTrgKey srcTrgBegin = getSrcTrgKey(srcPhraseInfo.begin()->first, t, found);
     if (!found) return false;
-- 
2.43.0


From 1239c17d4b14c0001fc21a2e935649d630e443fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 02/81] fix: HatTriePhraseTable::begin stops at the end when
 there are no target phrases

---
 src/phrase_models/HatTriePhraseTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/HatTriePhraseTable.cc b/src/phrase_models/HatTriePhraseTable.cc
index b9fca7b..9ba3b4d 100644
--- a/src/phrase_models/HatTriePhraseTable.cc
+++ b/src/phrase_models/HatTriePhraseTable.cc
@@ -555,7 +555,7 @@ HatTriePhraseTable::const_iterator HatTriePhraseTable::begin(void) const
 {
     // Shift the iterator to the first target phrase
     PhraseTable::const_iterator iterTrgBegin = phraseTable.begin();
-    while (!isTargetPhrase(keyToVector(iterTrgBegin.key())))
+    while (iterTrgBegin != phraseTable.end() && !isTargetPhrase(keyToVector(iterTrgBegin.key())))
     {
         iterTrgBegin++;
     }
-- 
2.43.0


From ade783228c42e13f459dbba36e439257dfc4bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 03/81] fix: LevelDbPhraseTable::addTableEntry aggregates the
 target count

---
 src/phrase_models/LevelDbPhraseTable.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index c50a7a0..526c51d 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -269,8 +269,11 @@ void LevelDbPhraseTable::addTableEntry(const std::vector<WordIndex>& s,
                                        const std::vector<WordIndex>& t,
                                        PhrasePairInfo inf)
 {
+    Count t_count = cTrg(t);
+
     addSrcInfo(s, inf.first.get_c_s());  // (USUSED_WORD, s)
-    storeData(t, (int) round(inf.second.get_c_s()));  // (t)
+    // Values for target are not summed with the old one thus they have to aggregated here
+    storeData(t, (int) round((t_count + inf.second).get_c_s()));  // (t)
     addSrcTrgInfo(s, t, (int) round(inf.second.get_c_st())); // (t, UNUSED_WORD, s)
 }
 
-- 
2.43.0


From a754aeaaf76b99fa07e555b9b0f8edf338c4119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 04/81] fix: LevelDbPhraseTable::getEntriesForTarget returns
 true only when there are entries

---
 src/phrase_models/LevelDbPhraseTable.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index 526c51d..54733a4 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -435,8 +435,7 @@ bool LevelDbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     
     srctn.clear();  // Make sure that structure does not keep old values
     
-    int i = 0;
-    for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next(), i++) {
+    for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next()) {
         std::vector<WordIndex> vec = keyToVector(it->key().ToString());
         std::vector<WordIndex> src(vec.begin() + start_vec.size(), vec.end());
 
@@ -451,7 +450,7 @@ bool LevelDbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
 
     delete it;
 
-    return i > 0 && found;
+    return !srctn.empty() && found;
 }
 
 //-------------------------
-- 
2.43.0


From 6eeb3b114ada401aecbfa551687f9f0c3cd06161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 05/81] fix: BdbPhraseTable retrieves existing entries

---
 src/phrase_models/BdbPhraseTable.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/phrase_models/BdbPhraseTable.cc b/src/phrase_models/BdbPhraseTable.cc
index b7266f3..9829112 100644
--- a/src/phrase_models/BdbPhraseTable.cc
+++ b/src/phrase_models/BdbPhraseTable.cc
@@ -144,8 +144,14 @@ void BdbPhraseTable::encodeKeyDataForPhrDictDb(PhrDictKey& phrDictKey,
 {  
   key.set_data(&phrDictKey);
   key.set_size(phrDictKey.getSize());
+      // Handles opened with DB_THREAD require the memory policy for
+      // retrieved data to be given
+  key.set_ulen(sizeof(PhrDictKey));
+  key.set_flags(DB_DBT_USERMEM);
   data.set_data(&phrDictValue);
   data.set_size(sizeof(PhrDictValue));
+  data.set_ulen(sizeof(PhrDictValue));
+  data.set_flags(DB_DBT_USERMEM);
 }
 
 //-------------------------
@@ -332,12 +338,19 @@ bool BdbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
   PhrDictKey phrDictKey;
   std::vector<WordIndex> emptyPhrase;
   phrDictKey.setPhrPair(emptyPhrase,t);
-  Dbt key(&phrDictKey,phrDictKey.getSize());
-  Dbt data;
+  PhrDictKey keyBuffer=phrDictKey;
+  Dbt key(&keyBuffer,keyBuffer.getSize());
+  key.set_ulen(sizeof(PhrDictKey));
+  key.set_flags(DB_DBT_USERMEM);
+  PhrDictValue dataBuffer;
+  Dbt data(&dataBuffer,sizeof(PhrDictValue));
+  data.set_ulen(sizeof(PhrDictValue));
+  data.set_flags(DB_DBT_USERMEM);
   int ret=cursorPtr->get(&key, &data, DB_SET_RANGE);
   if(ret)
   {
     srctn.clear();
+    cursorPtr->close();
     return false;
   }
 
-- 
2.43.0


From ec63652bd61fadd5bd3f02f1dae890415f798241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 06/81] fix: WordGraph::prune counts the initial state score
 once

---
 src/error_correction/WordGraph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 2ddf88c..686b648 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1100,7 +1100,9 @@ unsigned int WordGraph::pruneArcsToPredStates(float threshold)
       HypStateIndex predStateIndex=wordGraphArcs[wordGraphArcId].predStateIndex;
       HypStateIndex succStateIndex=wordGraphArcs[wordGraphArcId].succStateIndex;
       Score arcScore=wordGraphArcs[wordGraphArcId].arcScore;
-      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex];
+          // NOTE: initialStateScore is included in both prevScores and
+          // restScores
+      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex]-initialStateScore;
       // std::cerr<<predStateIndex<<" -> "<<succStateIndex<<" , "<<prevScores[predStateIndex]<<" ";
       // std::cerr<<arcScore<<" "<<restScores[succStateIndex]<<" , "<<bestScoreAssociatedToArc<<" , "<<bestHypScore<<" "<<bestHypScore+logThreshold<<std::endl;
 
-- 
2.43.0


From fb153dcd31dbbccf9e12de2f984182f8a4d905e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 07/81] fix: WordGraph::addArc makes room for unseen
 predecessor states

---
 src/error_correction/WordGraph.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 686b648..f4bb7c5 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -93,6 +93,10 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
       // Register arc as not selected for pruning
   arcsPruned.push_back(false);
   
+      // Make room for the predecessor state if it was not seen before
+  if(predStateIndex>=wordGraphStates.size())
+    wordGraphStates.resize(predStateIndex+1);
+
       // Add the new arc   
   if(succStateIndex<wordGraphStates.size())
   {
-- 
2.43.0


From 8542b832995341caf72d874940195a0ae8170a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 08/81] fix: best path search does not continue through
 excluded arcs

---
 src/error_correction/WordGraph.cc | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index f4bb7c5..68f3c94 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -867,8 +867,8 @@ void WordGraph::calcPrevScoresWeights(HypStateIndex hypStateIndex,
 
     for(WordGraphArcId wgArcId=wgArcIdPair.first;wgArcId<=wgArcIdPair.second;++wgArcId)
     {
-          // Check if arc has not been pruned
-      if(!arcPruned(wgArcId))
+          // Check if arc has not been pruned nor excluded
+      if(!arcPruned(wgArcId) && excludedArcs.find(wgArcId)==excludedArcs.end())
       {
         WordGraphArc wordGraphArc=wordGraphArcId2WordGraphArc(wgArcId);
 
@@ -887,16 +887,6 @@ void WordGraph::calcPrevScoresWeights(HypStateIndex hypStateIndex,
         
               // Update score
           Score score=arcScore+prevScores[wordGraphArc.predStateIndex];
-          if(!excludedArcs.empty())
-          {
-                // If predecessor state is the initial state, check that the
-                // first word is not contained in the set of rejected words
-            std::set<WordGraphArcId>::const_iterator wgArcIdSetIter;
-            wgArcIdSetIter=excludedArcs.find(wgArcId);
-            if(wgArcIdSetIter!=excludedArcs.end())
-              score=SMALL_SCORE;
-          }
-        
           if(score<SMALL_SCORE) score=SMALL_SCORE;
           if(score>prevScores[wordGraphArc.succStateIndex])
           {
-- 
2.43.0


From 7359402f06e5c8b251088d4ff7fbb1d9ee7e1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 09/81] fix: WordGraph::orderArcsTopol keeps arc ids, pruning
 marks and score components in step

---
 src/error_correction/WordGraph.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 68f3c94..8dd4281 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -722,6 +722,9 @@ void WordGraph::orderArcsTopol(void)
 {
       // Define auxiliary variables
   WordGraphArcs wordGraphArcsAux;
+  std::vector<bool> arcsPrunedAux;
+  std::vector<std::vector<Score> > scrCompsVecAux;
+  std::vector<WordGraphArcId> newWgArcId(wordGraphArcs.size());
 
   std::vector<bool> arcAdded;
   arcAdded.insert(arcAdded.begin(),wordGraphArcs.size(),false);
@@ -776,7 +779,10 @@ void WordGraph::orderArcsTopol(void)
               // Update atLeastOneArcAdded flag
           atLeastOneArcAdded=true;
               // Add arc
+          newWgArcId[wgArcId]=wordGraphArcsAux.size();
           wordGraphArcsAux.push_back(wgArc);
+          arcsPrunedAux.push_back(arcsPruned[wgArcId]);
+          scrCompsVecAux.push_back(scrCompsVec[wgArcId]);
               // Mark arc as added
           arcAdded[wgArcId]=true;
               // Close state
@@ -796,10 +802,22 @@ void WordGraph::orderArcsTopol(void)
       // Check if new arc ordering has been successfully obtained
   if(wordGraphArcsAux.size()==wordGraphArcs.size())
   {
-        // Replace wordGraphArcs with wordGraphArcsAux
+        // Replace wordGraphArcs with wordGraphArcsAux, together with
+        // the information indexed by arc
     wordGraphArcs=wordGraphArcsAux;
-  }
+    arcsPruned=arcsPrunedAux;
+    scrCompsVec=scrCompsVecAux;
+    for(HypStateIndex idx=0;idx<wordGraphStates.size();++idx)
+    {
+      std::vector<WordGraphArcId>& predArcs=wordGraphStates[idx].arcsToPredStates;
+      for(unsigned int i=0;i<predArcs.size();++i)
+        predArcs[i]=newWgArcId[predArcs[i]];
 
+      std::vector<WordGraphArcId>& succArcs=wordGraphStates[idx].arcsToSuccStates;
+      for(unsigned int i=0;i<succArcs.size();++i)
+        succArcs[i]=newWgArcId[succArcs[i]];
+    }
+  }
 }
 
 //---------------------------------------
-- 
2.43.0


From 7100bbbbc3f1756009b06395bc5580e699c48d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 10/81] fix: recombination info is erased for hypotheses
 dropped when the stack size is reduced

---
 src/stack_dec/SmtMultiStackRec.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stack_dec/SmtMultiStackRec.h b/src/stack_dec/SmtMultiStackRec.h
index 054e67c..4d583f5 100644
--- a/src/stack_dec/SmtMultiStackRec.h
+++ b/src/stack_dec/SmtMultiStackRec.h
@@ -351,9 +351,18 @@ bool SmtMultiStackRec<HYPOTHESIS_REC>::pushOnSmtStackIdx(typename MultiContainer
         // remove hypothesis with lower score (recInfoMap entry is
         // also removed)
     pos->second.remove(recInfoMapIter->second);
+    recInfoMap.erase(recInfoMapIter);
     recInfoMapIter=recInfoMap.end();
   }
 
+      // If the maximum stack size was reduced, remove the exceeding
+      // hypotheses and their recombination info
+  while(pos->second.size()>this->maxStackSize)
+  {
+    eraseRecInfo(pos->second.last().getHypState());
+    pos->second.removeLast();
+  }
+
       // Keep last hypothesis of the container, and the size of the
       // container before the insertion
   HYPOTHESIS_REC lastHyp;
-- 
2.43.0


From b8ced5f7c7fba9540cd39698c09b0697e376c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 11/81] fix: multi-stack top, last and removeLast consider the
 best or worst hypothesis of all sub-stacks

---
 src/stack_dec/SmtMultiStackRec.h | 3 ++-
 src/stack_dec/_smtMultiStack.h   | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/SmtMultiStackRec.h b/src/stack_dec/SmtMultiStackRec.h
index 4d583f5..ad8735a 100644
--- a/src/stack_dec/SmtMultiStackRec.h
+++ b/src/stack_dec/SmtMultiStackRec.h
@@ -261,7 +261,8 @@ void SmtMultiStackRec<HYPOTHESIS_REC>::removeLast(void)
         // one)...
     for(;sortedStacksMapIter!=this->sortedStacksMap.end();++sortedStacksMapIter) 
     {
-      if(pos->second.last().getScore()>worstScore)
+      pos=sortedStacksMapIter->second;
+      if(pos->second.last().getScore()<worstScore)
       {
         worstScore=pos->second.last().getScore();
         posWorst=pos;
diff --git a/src/stack_dec/_smtMultiStack.h b/src/stack_dec/_smtMultiStack.h
index c23a4a9..7c79ed0 100644
--- a/src/stack_dec/_smtMultiStack.h
+++ b/src/stack_dec/_smtMultiStack.h
@@ -150,7 +150,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::top(void)
   result=pos->second.top();
   if(!breadthFirst) 
   {
-    bestScore=aux.getScore();
+    bestScore=result.getScore();
   
         // For each non-empty stack stored in the map (except the first
         // one)...
@@ -196,7 +196,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::last(void)
     pos=sortedStacksMapIter->second;
     posWorst=pos;
     result=pos->second.last();
-    worstScore=aux.getScore();
+    worstScore=result.getScore();
     
         // For each non-empty stack stored in the map (except the first
         // one)...
@@ -204,7 +204,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::last(void)
     {
       pos=sortedStacksMapIter->second;
       aux=pos->second.last(); 
-      if(aux.getScore()>worstScore)
+      if(aux.getScore()<worstScore)
       {
         result=aux;
         worstScore=aux.getScore();
-- 
2.43.0


From 147c09f92c49c112cd4c383deaf2ce3d53566958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 12/81] fix: recombine hypotheses stored in the stack of
 another equivalence class

The class of a phrase-based hypothesis (number of jumps) is not a function of its
state, so a better hypothesis could be pushed into another stack while the worse one
with the same state was kept: it was expanded again (duplicated word graph arcs) and
returned again by getNextTrans.
---
 src/stack_dec/SmtMultiStackRec.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/stack_dec/SmtMultiStackRec.h b/src/stack_dec/SmtMultiStackRec.h
index ad8735a..d045e92 100644
--- a/src/stack_dec/SmtMultiStackRec.h
+++ b/src/stack_dec/SmtMultiStackRec.h
@@ -344,16 +344,23 @@ bool SmtMultiStackRec<HYPOTHESIS_REC>::pushOnSmtStackIdx(typename MultiContainer
 {
   typename RecInfoMap::iterator recInfoMapIter;
   typename SmtStack<HYPOTHESIS_REC>::iterator smtStackIter;
+  typename MultiContainer::iterator prevPos=pos;
 
       // retrieve pointer to hypothesis in recInfoMap
   recInfoMapIter=recInfoMap.find(hypStateIndex);
   if(recInfoMapIter!=recInfoMap.end())
   {
-        // remove hypothesis with lower score (recInfoMap entry is
-        // also removed)
-    pos->second.remove(recInfoMapIter->second);
-    recInfoMap.erase(recInfoMapIter);
-    recInfoMapIter=recInfoMap.end();
+        // find stack containing the hypothesis with lower score, which
+        // may belong to a different equivalence class
+    prevPos=this->multiContainer.find((*(recInfoMapIter->second)).getEqClass());
+    if(prevPos==pos)
+    {
+          // remove hypothesis with lower score (recInfoMap entry is
+          // also removed)
+      pos->second.remove(recInfoMapIter->second);
+      recInfoMap.erase(recInfoMapIter);
+      recInfoMapIter=recInfoMap.end();
+    }
   }
 
       // If the maximum stack size was reduced, remove the exceeding
@@ -378,6 +385,11 @@ bool SmtMultiStackRec<HYPOTHESIS_REC>::pushOnSmtStackIdx(typename MultiContainer
         // recInfoMap
     if(recInfoMapIter!=recInfoMap.end())
     {
+          // Remove hypothesis with lower score from the stack of its
+          // equivalence class
+      prevPos->second.remove(recInfoMapIter->second);
+      if(prevPos->second.empty())
+        this->sortedStacksMap.erase(prevPos->first);
       recInfoMapIter->second=smtStackIter;
     }
     else
-- 
2.43.0


From 610805222e5ca214ac3ae5f749b4c188938769b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 13/81] fix: discard metadata of the previous sentence when
 translating with reference or prefix

Constraints, per-sentence weights and on-the-fly features of the last sentence
translated without reference or prefix were applied.
---
 src/stack_dec/_pbTransModel.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/stack_dec/_pbTransModel.h b/src/stack_dec/_pbTransModel.h
index 0050dab..a5d5466 100644
--- a/src/stack_dec/_pbTransModel.h
+++ b/src/stack_dec/_pbTransModel.h
@@ -382,6 +382,7 @@ class _pbTransModel: public BasePbTransModel<HYPOTHESIS>
 
       // Functions related to pre_trans_actions
   virtual void clearTempVars(void);
+  void clearMetadataVars(void);
   void verifyDictCoverageForSentence(const std::vector<std::string>& sentenceVec,
                                      int maxSrcPhraseLength=MAX_SENTENCE_LENGTH_ALLOWED);
   bool srcPhrHasAtLeastOneValidTranslation(const std::vector<std::string> srcPhraseStr,
@@ -525,6 +526,20 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions(std::string srcsent)
   initHeuristic(this->pbTransModelPars.A);
 }
 
+//---------------------------------
+template<class HYPOTHESIS>
+void _pbTransModel<HYPOTHESIS>::clearMetadataVars(void)
+{
+      // Remove translation constraints
+  this->trMetadataPtr->clear();
+
+      // Initialize on-the-fly features
+  onTheFlyFeaturesInfo.featPtrVec=this->trMetadataPtr->getOnTheFlyModelFeatures();
+
+      // Restore default log-linear weights
+  initFeatWeights(defaultFeatWeights);
+}
+
 //---------------------------------
 template<class HYPOTHESIS>
 void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ref(std::string srcsent,
@@ -536,6 +551,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ref(std::string srcsent,
       // Set state info
   state=MODEL_TRANSREF_STATE;
 
+      // Discard metadata of the previous sentence
+  clearMetadataVars();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -587,6 +605,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ver(std::string srcsent,
       // Set state info
   state=MODEL_TRANSVER_STATE;
 
+      // Discard metadata of the previous sentence
+  clearMetadataVars();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -638,6 +659,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_prefix(std::string srcsent,
       // Set state info
   state=MODEL_TRANSPREFIX_STATE;
 
+      // Discard metadata of the previous sentence
+  clearMetadataVars();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
-- 
2.43.0


From 4b73e2c2f2eaf526d3562e361af337833024297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 14/81] fix: leave breadth-first mode of the stack container
 when best-first search is selected

---
 src/stack_dec/_stackDecoder.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stack_dec/_stackDecoder.h b/src/stack_dec/_stackDecoder.h
index 09a9838..d567671 100644
--- a/src/stack_dec/_stackDecoder.h
+++ b/src/stack_dec/_stackDecoder.h
@@ -285,6 +285,11 @@ void _stackDecoder<SMT_MODEL>::set_breadthFirst(bool b)
       // Initialize pointer to multiple stack if the dynamic cast is
       // succesfull (this pointer is used in the pop() function)
   baseSmtMultiStackPtr=dynamic_cast<BaseSmtMultiStack<Hypothesis>*>(stack_ptr);
+
+      // Initialize breadth-first flag of the multiple stack (pop() sets
+      // it when breadth-first search is used)
+  if(baseSmtMultiStackPtr)
+    baseSmtMultiStackPtr->set_bf(b);
 }
 
 //---------------------------------------
-- 
2.43.0


From e55484a197ffeb60be7ef017d4d8acc67fe55780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 15/81] fix: WgProcessorForAnlp reuses only the part of the
 previous prefix that is still valid

---
 src/error_correction/WgProcessorForAnlp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index d26e9c5..569ef32 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -476,8 +476,12 @@ WgProcessorForAnlp<ECM_FOR_WG>::getValidProcPrefixVec(const std::vector<std::str
   for(unsigned int i=0;i<previousPrefixVec.size();++i)
   {
     if(i>=prefixVec.size()) break;
-    if(previousPrefixVec[i]==prefixVec[i])
-      result.push_back(previousPrefixVec[i]);
+        // The processed portion is valid up to the first difference
+    if(previousPrefixVec[i]!=prefixVec[i]) break;
+        // The last word of a prefix is treated as an incomplete word, it
+        // cannot be reused when it is not the last word of both prefixes
+    if((i+1==previousPrefixVec.size())!=(i+1==prefixVec.size())) break;
+    result.push_back(previousPrefixVec[i]);
   }
   return result;
 }
-- 
2.43.0


From cf1cef74e0b7aac49f7de832b2cfe2c0db5bcf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 16/81] fix: WgProcessorForAnlp keeps the best word-graph score
 of each state

---
 src/error_correction/WgProcessorForAnlp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index 569ef32..77b5983 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -867,7 +867,8 @@ void WgProcessorForAnlp<ECM_FOR_WG>::updateBestScoresForState(WordGraphArcId wgA
                                  ecmScrInfoForState[succIdx]);
   
       // Update wg score for succIdx
-  wgScoreForState[succIdx]=wgScr;
+  if(wgScoreForState[succIdx]<wgScr)
+    wgScoreForState[succIdx]=wgScr;
 }
 
 //---------------------------------------
@@ -1311,8 +1312,7 @@ void WgProcessorForAnlp<ECM_FOR_WG>::initVars(unsigned int verbose/*=0*/)
   wgScoreForState.clear();
   if(wg_ptr!=NULL)
   {
-    Score scr;
-    wgScoreForState.insert(wgScoreForState.begin(),wg_ptr->numStates(),scr);
+    wgScoreForState.insert(wgScoreForState.begin(),wg_ptr->numStates(),(Score)SMALL_SCORE);
   }
 
   
-- 
2.43.0


From ee9a344114b531cf880d34c5fd2ecb9e484d54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 17/81] fix: WgProcessorForAnlp scores sub-states by the arc
 they belong to

---
 src/error_correction/WgProcessorForAnlp.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index 77b5983..2abb988 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -653,7 +653,9 @@ WgProcessorForAnlp<ECM_FOR_WG>::obtainNbestHypSubStates(unsigned int n,
                 // Obtain ecm score vector for w'th word of current arc
             std::vector<Score> ecmScrVec=ecm_wg_ptr->obtainScrVecFromEsi(ecmScrInfoForArcVec[wgArcId][w]);
                 // Calculate score of the sub-state
-            Score score=wgWeight*wgScr+ecmWeight*ecmScrVec.back()+(wgWeight*restScores[wgArc.predStateIndex]);
+                // (the rest of the path goes through the current arc)
+            Score restScore=wgArc.arcScore+restScores[wgArc.succStateIndex];
+            Score score=wgWeight*wgScr+ecmWeight*ecmScrVec.back()+(wgWeight*restScore);
             
                 // Create sub-state object
             HypSubStateIdx hssIdx;
@@ -1596,14 +1598,14 @@ void WgProcessorForAnlp<ECM_FOR_WG>::printSubStateInfo(WordGraphArcId wgArcId,
   std::vector<Score> ecmScrVec=ecm_wg_ptr->obtainScrVecFromEsi(ecmScrInfoForArcVec[wgArcId][w]);
 
       // Print total score
-  if(restScores.size()>wgArc.predStateIndex)
-    outS<<" totalScr: "<<wgWeight*restScores[wgArc.predStateIndex]+wgWeight*wgScr+ecmWeight*ecmScrVec.back();
+  if(restScores.size()>wgArc.succStateIndex)
+    outS<<" totalScr: "<<wgWeight*(wgArc.arcScore+restScores[wgArc.succStateIndex])+wgWeight*wgScr+ecmWeight*ecmScrVec.back();
   outS<<" ;";
 
       // Print wg rest score
   outS<<" wgRestScr: ";
-  if(restScores.size()>wgArc.predStateIndex)
-    outS<<restScores[wgArc.predStateIndex]<<" ";
+  if(restScores.size()>wgArc.succStateIndex)
+    outS<<wgArc.arcScore+restScores[wgArc.succStateIndex]<<" ";
   outS<<";";
           
   /*     // Print best scores */
-- 
2.43.0


From 34957b8024056a5bbfbe7db0b8ff38b2d21bbe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 18/81] fix: WgProcessorForAnlp does not read the first word of
 empty arcs

---
 src/error_correction/WgProcessorForAnlp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index 2abb988..312ac02 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -573,7 +573,7 @@ WgProcessorForAnlp<ECM_FOR_WG>::obtainNbestHypStates(unsigned int n,
       for(unsigned int i=0;i<wgArcs.size();++i)
       {
             // Check that the constraint is satisfied
-        bool wordSatisfiesConstraint=wordSatisfiesRejWordConstraint(wgArcs[i].words[0],rejectedWords);
+        bool wordSatisfiesConstraint=wgArcs[i].words.empty() || wordSatisfiesRejWordConstraint(wgArcs[i].words[0],rejectedWords);
         if(wordSatisfiesConstraint)
         {
           Score restScoreForArc=wgArcs[i].arcScore+restScores[wgArcs[i].succStateIndex];
@@ -1078,7 +1078,7 @@ WgProcessorForAnlp<ECM_FOR_WG>::obtainCorrForHypState(std::vector<std::string> p
     for(unsigned int i=0;i<arcIdsSuccStatesVec.size();++i)
     {
       WordGraphArc wgArc=wg_ptr->wordGraphArcId2WordGraphArc(arcIdsSuccStatesVec[i]);
-      bool wordSatisfiesConstraint=wordSatisfiesRejWordConstraint(wgArc.words[0],rejectedWords);
+      bool wordSatisfiesConstraint=wgArc.words.empty() || wordSatisfiesRejWordConstraint(wgArc.words[0],rejectedWords);
       if(!wordSatisfiesConstraint)
         excludedWgArcIdSet.insert(arcIdsSuccStatesVec[i]);
     }
-- 
2.43.0


From 0066ec16208a3b75836c25dcdcec03aa116034cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 19/81] fix: WgProcessorForAnlp does not read before the start
 of an empty prefix

---
 src/error_correction/WgProcessorForAnlp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index 312ac02..78de2f5 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -318,7 +318,7 @@ WgProcessorForAnlp<ECM_FOR_WG>::correct(std::string prefix,
 
         // Obtain prefix vector
     std::vector<std::string> prefixVec=StrProcUtils::stringToStringVector(prefix);
-    if(prefix[prefix.size()-1]==' ' && prefixVec.size()>0)
+    if(prefixVec.size()>0 && prefix[prefix.size()-1]==' ')
     {
       prefixVec[prefixVec.size()-1]+=' ';
     }
-- 
2.43.0


From e59bc0964ef28d4d3f6d5c7db806fa427d007241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 20/81] fix: the blank that marks a complete prefix word has no
 insertion cost

---
 src/error_correction/EditDistForVecString.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 36ea160..ec4ead9 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -177,10 +177,18 @@ void EditDistForVecString::incrEditDistPrefixFirstRow(const std::vector<std::str
   
   for(unsigned int j=0; j<incr_y.size(); ++j)
   {
+        // A blank character at the end of the last word only marks it as
+        // complete
+    Score ins_cost;
+    if(j+1==incr_y.size())
+      ins_cost=insertionCost(StrProcUtils::removeLastBlank(incr_y[j]));
+    else
+      ins_cost=insertionCost(incr_y[j]);
+
     if(startingPos+j==0)
-      newScoreVec.push_back(insertionCost(incr_y[j]));
+      newScoreVec.push_back(ins_cost);
     else
-      newScoreVec.push_back(newScoreVec[startingPos+j-1] + insertionCost(incr_y[j]));
+      newScoreVec.push_back(newScoreVec[startingPos+j-1] + ins_cost);
   }
 }
 
-- 
2.43.0


From f7f6d25ebca32e76cf24beb54688d4ce35909627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 21/81] fix: deletions after an empty prefix have no cost in
 prefix edit distances

---
 src/error_correction/EditDistForStr.cc       | 6 ++++++
 src/error_correction/EditDistForVecString.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/error_correction/EditDistForStr.cc b/src/error_correction/EditDistForStr.cc
index 360b64c..d2099b3 100644
--- a/src/error_correction/EditDistForStr.cc
+++ b/src/error_correction/EditDistForStr.cc
@@ -251,6 +251,12 @@ Score EditDistForStr::processMatrixCellPref(const std::string& x,
       {
         pred_i=i-1;
         pred_j=0;
+            // Deletions are done with no cost if the prefix is empty
+        if(usePrefDelOp && y.size()==0)
+        {
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
         op_id=DEL_OP;
         return dm[i-1][0] + deletionCost(x[i-1]);
       }
diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index ec4ead9..46ddd74 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -479,6 +479,12 @@ Score EditDistForVecString::processMatrixCellPref(const std::vector<std::string>
       {
         pred_i=i-1;
         pred_j=0;
+            // Deletions are done with no cost if the prefix is empty
+        if(usePrefDelOp && y.size()==0)
+        {
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
         op_id=DEL_OP;
         return dm[i-1][0] + deletionCost(x[i-1]);
       }
-- 
2.43.0


From f8c95ba8de482230890f2a84efccb25305afe9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 22/81] fix: WordAligMatrix::getAligVec numbers the aligned
 positions from one

---
 src/nlp_common/WordAligMatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index 85c460e..ca1ebaf 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -116,7 +116,7 @@ bool WordAligMatrix::getAligVec(std::vector<PositionIndex>& aligVec)
     {
       if(matrix[i][j]!=0)
       {
-        if(aligVec[j]==0) aligVec[j]=i;
+        if(aligVec[j]==0) aligVec[j]=i+1;
         else
         {
           aligVec.clear();
-- 
2.43.0


From 67f0793d029737e37aa1c2cca98bc24032e23c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 23/81] fix: WordAligMatrix subtraction removes the points of
 the second matrix

---
 src/nlp_common/WordAligMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index ca1ebaf..22081a6 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -292,8 +292,8 @@ WordAligMatrix& WordAligMatrix::operator-= (const WordAligMatrix &waMatrix)
   {
     for(i=0;i<I;++i)
       for(j=0;j<J;++j)
-        if(matrix[i][j]!=0 && waMatrix.matrix[i][j]==0)	 
-		  matrix[i][j]=1;
+        if(waMatrix.matrix[i][j]!=0)
+          matrix[i][j]=0;
   }	
   return *this;
 }
-- 
2.43.0


From 1d882d008b5bc4a5e2170d0cfff0c80d8cc04b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 24/81] fix: AwkInputStream keeps the last character of a file
 that does not end in a newline

---
 src/nlp_common/AwkInputStream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/AwkInputStream.cc b/src/nlp_common/AwkInputStream.cc
index 70d0e2f..61ac6e4 100644
--- a/src/nlp_common/AwkInputStream.cc
+++ b/src/nlp_common/AwkInputStream.cc
@@ -56,7 +56,7 @@ bool AwkInputStream::getln(void)
     read=getline(&buff,&buftlen,filePtr);
     if(read!=-1)
     {
-      buff[read-1]='\0';
+      if(buff[read-1]=='\n') buff[read-1]='\0';
       ++FNR;   
       NF=get_NF();   
       return true;   
-- 
2.43.0


From f256cd721db8928bcb8256b6a3b02f2fb65a4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 25/81] fix: thot_alig_op -gt transposes the alignments in
 every mode

---
 src/phrase_models/AlignmentContainer.cc |  4 ++++
 src/phrase_models/AlignmentContainer.h  |  1 +
 src/phrase_models/thot_alig_op.cc       | 27 +++++++++++++++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/src/phrase_models/AlignmentContainer.cc b/src/phrase_models/AlignmentContainer.cc
index bcd891b..bcc573b 100644
--- a/src/phrase_models/AlignmentContainer.cc
+++ b/src/phrase_models/AlignmentContainer.cc
@@ -34,6 +34,7 @@ AlignmentContainer::AlignmentContainer(void)
 {
  numAlignments=0;	
  GizaAligFileName[0]=0;	
+ gizaAligTransposed=false;
 }
 
 //-------------------------
@@ -60,6 +61,7 @@ bool AlignmentContainer::extractAlignmentsFromGIZAFile(const char *_GizaAligFile
  else
  {
    sprintf(GizaAligFileName,"%s",_GizaAligFileName);
+   gizaAligTransposed=transpose;
 	   
    while(alignmentExtractor.getNextAlignment())
    {
@@ -379,6 +381,7 @@ bool AlignmentContainer::printNoCompact(std::ostream &outS)
   {	   
     while(alignmentExtractor.getNextAlignment())
 	{
+      if(gizaAligTransposed) alignmentExtractor.transposeAlig();
       t=alignmentExtractor.get_t();
       ns=alignmentExtractor.get_ns();
       t_ui=vecString2VecUnsigInt(t,tVocab,tVocabInv);	
@@ -420,6 +423,7 @@ bool AlignmentContainer::printNoCompact(FILE *file)
   {	   
     while(alignmentExtractor.getNextAlignment())
 	{
+      if(gizaAligTransposed) alignmentExtractor.transposeAlig();
       t=alignmentExtractor.get_t();
       ns=alignmentExtractor.get_ns();
       t_ui=vecString2VecUnsigInt(t,tVocab,tVocabInv);	
diff --git a/src/phrase_models/AlignmentContainer.h b/src/phrase_models/AlignmentContainer.h
index e23dbd6..fdbcef1 100644
--- a/src/phrase_models/AlignmentContainer.h
+++ b/src/phrase_models/AlignmentContainer.h
@@ -96,6 +96,7 @@ class AlignmentContainer
 	std::vector<std::string> sVocabInv;
 	std::vector<std::string> tVocabInv;
     char GizaAligFileName[256];	
+    bool gizaAligTransposed;
 	unsigned long numAlignments;
 };
 
diff --git a/src/phrase_models/thot_alig_op.cc b/src/phrase_models/thot_alig_op.cc
index 7039efe..1b26807 100644
--- a/src/phrase_models/thot_alig_op.cc
+++ b/src/phrase_models/thot_alig_op.cc
@@ -44,6 +44,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 FILE* gen_temp_file(void);
 void fileCopy (FILE* from, FILE *to);
+void transposeAligs(AlignmentExtractor& alignmentExtractor);
 int TakeParameters(int argc,char *argv[]);
 bool parseAlignOpsFile(AlignmentContainer& alignmentContainer,
                        char * alignOperationsFile,
@@ -133,6 +134,8 @@ int main(int argc,char *argv[])
      {
        sprintf(outputFileName,"%s.A3.final",outputFilesPrefix); 
        
+       if(gtFlag) transposeAligs(alExt);
+
        if(alignOperationsFile[0]!=0)
          return parseAlignOpsFile(alExt,alignOperationsFile,verbose);
        else
@@ -151,6 +154,30 @@ int main(int argc,char *argv[])
  else return THOT_ERROR;	
 }
 
+//--------------- transposeAligs function
+
+void transposeAligs(AlignmentExtractor& alignmentExtractor)
+{
+  char header[256];
+  FILE *tmp_file=gen_temp_file();
+
+      // Write transposed alignments to a temporary file
+  while(alignmentExtractor.getNextAlignment())
+  {
+    alignmentExtractor.transposeAlig();
+    sprintf(header,"# %g",alignmentExtractor.get_numReps());
+    printAlignmentInGIZAFormat(tmp_file,
+                               alignmentExtractor.get_ns(),
+                               alignmentExtractor.get_t(),
+                               alignmentExtractor.get_wamatrix(),
+                               header);
+  }
+
+      // Replace the original file by the temporary one
+  fseek(tmp_file,0L,SEEK_SET);
+  alignmentExtractor.open_stream(tmp_file);
+}
+
 //--------------- parseAlignOpsFile function
 
 bool parseAlignOpsFile(AlignmentContainer& alignmentContainer,
-- 
2.43.0


From 1ae4c2fe2dfb53b363ae7f36b5a2de750528f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 26/81] fix: assigning a WordAligMatrix to itself does not
 clear it

---
 src/nlp_common/WordAligMatrix.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index 22081a6..d12d05f 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -181,6 +181,7 @@ WordAligMatrix& WordAligMatrix::operator= (const WordAligMatrix &waMatrix)
 {
   unsigned int i,j;
 
+  if(this==&waMatrix) return *this;
   init(waMatrix.I,waMatrix.J);
   for(i=0;i<I;++i)
     for(j=0;j<J;++j)
-- 
2.43.0


From 809eeb066932f372970b291ab0e26297c36c3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 27/81] fix: printed phrase tables are complete when
 printTTable returns

---
 src/phrase_models/_incrPhraseModel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/phrase_models/_incrPhraseModel.cc b/src/phrase_models/_incrPhraseModel.cc
index 8eddacd..d3ef780 100644
--- a/src/phrase_models/_incrPhraseModel.cc
+++ b/src/phrase_models/_incrPhraseModel.cc
@@ -448,6 +448,7 @@ bool _incrPhraseModel::printTTable(const char *outputFileName)
   else
   {
     printTTable(outf);
+    fclose(outf);
     return THOT_OK;
   }
 }
-- 
2.43.0


From 549c0638b5f4c79f0d1eeee7841a7bd3912b29e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 28/81] fix: JsonTranslationMetadata does not look for phrases
 past the end of the sentence

---
 src/stack_dec/JsonTranslationMetadata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index ebf0ea6..8cc6380 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -316,7 +316,7 @@ bool JsonTranslationMetadata<SCORE_INFO>::isPhraseInSentence(std::vector<std::st
   if(phrase.empty())
     return true;
 
-  if(startPosition + phrase.size() - 1 > srcSentVec.size())
+  if(startPosition + phrase.size() > srcSentVec.size())
     return false;  // Sentence is too short to contain phrase
   
   for(unsigned int i = 0; i < phrase.size(); i++)
-- 
2.43.0


From e24ffd0303448c4f1fd40f648c94b7c391207cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 29/81] fix: TranslationMetadata accepts sentences that contain
 only blanks

---
 src/stack_dec/TranslationMetadata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/TranslationMetadata.h b/src/stack_dec/TranslationMetadata.h
index 7525073..9ab766b 100644
--- a/src/stack_dec/TranslationMetadata.h
+++ b/src/stack_dec/TranslationMetadata.h
@@ -151,7 +151,7 @@ void TranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string rawSrcS
     std::vector<std::string> tokRawSrcSentVec=StrProcUtils::stringToStringVector(tokRawSrcSent);
 
         // Scan string vector
-    bool end=false;
+    bool end=tokRawSrcSentVec.empty();
     unsigned int i=0;
     std::vector<std::string> srcPhrase;
     std::vector<std::string> trgPhrase;
-- 
2.43.0


From 0f450c11bdffd264deb8b8734000bf71e6839ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 30/81] fix: JsonTranslationMetadata skips segmentation
 constraints that are not JSON objects

---
 src/stack_dec/JsonTranslationMetadata.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index 8cc6380..2216d2c 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -159,6 +159,13 @@ void JsonTranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string raw
             for(picojson::array::iterator iter = tags.begin(); iter != tags.end(); iter++)
             {
               bool success=true;
+
+                  // Segmentation constraints are JSON objects
+              if(!iter->is<picojson::object>())
+              {
+                std::cerr<<"Error while parsing segmentation constraint"<<std::endl;
+                continue;
+              }
               
                   // Check if translation field exists
               std::string translation;
-- 
2.43.0


From fb416abd68cfcc6a2b4df901bfff0e4a45404f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 31/81] fix: loading expected values does not depend on the
 previous size restriction

---
 src/sw_models/anjiMatrix.cc         | 10 +++++++++-
 src/sw_models/anjm1ip_anjiMatrix.cc | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index de2f08f..b951495 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -159,8 +159,16 @@ bool anjiMatrix::load(const char* prefFileName)
   bool retVal;
   std::string anjiFile=prefFileName;
   anjiFile=anjiFile+".anji";
+      // Values are stored with the indices they have in the matrix, so
+      // they should not be mapped again when the size is restricted
+  unsigned int prev_maxnsize=anji_maxnsize;
+  anji_maxnsize=UNRESTRICTED_ANJI_SIZE;
   retVal=load_anji_values(anjiFile.c_str());
-  if(retVal==THOT_ERROR) return THOT_ERROR;
+  if(retVal==THOT_ERROR)
+  {
+    anji_maxnsize=prev_maxnsize;
+    return THOT_ERROR;
+  }
 
   std::string maxnsizeDataFile=prefFileName;
   maxnsizeDataFile=maxnsizeDataFile+".msinfo";
diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index 5326a2e..a98b854 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -412,8 +412,16 @@ bool anjm1ip_anjiMatrix::load(const char* prefFileName)
   bool retVal;
   std::string matrixFile=prefFileName;
   matrixFile=matrixFile+".anjm1ip_anji";
+      // Values are stored with the indices they have in the matrix, so
+      // they should not be mapped again when the size is restricted
+  unsigned int prev_maxnsize=anjm1ip_anji_maxnsize;
+  anjm1ip_anji_maxnsize=UNRESTRICTED_ANJM1IP_ANJI_SIZE;
   retVal=load_matrix_values(matrixFile.c_str());
-  if(retVal==THOT_ERROR) return THOT_ERROR;
+  if(retVal==THOT_ERROR)
+  {
+    anjm1ip_anji_maxnsize=prev_maxnsize;
+    return THOT_ERROR;
+  }
 
   std::string maxnsizeDataFile=prefFileName;
   maxnsizeDataFile=maxnsizeDataFile+".msinfo";
-- 
2.43.0


From 4f54da027af03560e58b7300218c5d4c71fadc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 32/81] fix: printing unrestricted expected values discards the
 size information printed before

---
 src/sw_models/anjiMatrix.cc         | 10 ++++++++--
 src/sw_models/anjm1ip_anjiMatrix.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index b951495..9b732bf 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "anjiMatrix.h"
+#include <stdio.h>
 
 //--------------- Global variables -----------------------------------
 
@@ -260,13 +261,18 @@ bool anjiMatrix::print(const char* prefFileName)
   retVal=print_anji_values(anjiFile.c_str());
   if(retVal==THOT_ERROR) return THOT_ERROR;
 
+  std::string maxnsizeDataFile=prefFileName;
+  maxnsizeDataFile=maxnsizeDataFile+".msinfo";
   if(anji_maxnsize!=UNRESTRICTED_ANJI_SIZE)
   {
-    std::string maxnsizeDataFile=prefFileName;
-    maxnsizeDataFile=maxnsizeDataFile+".msinfo";
     retVal=print_maxnsize_data(maxnsizeDataFile.c_str());
     if(retVal==THOT_ERROR) return THOT_ERROR;
   }
+  else
+  {
+        // Discard maximum size data printed previously
+    remove(maxnsizeDataFile.c_str());
+  }
   
   return THOT_OK;
 }
diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index a98b854..a492542 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "anjm1ip_anjiMatrix.h"
+#include <stdio.h>
 
 //--------------- Global variables -----------------------------------
 
@@ -514,13 +515,18 @@ bool anjm1ip_anjiMatrix::print(const char* prefFileName)
   retVal=print_matrix_values(matrixFile.c_str());
   if(retVal==THOT_ERROR) return THOT_ERROR;
 
+  std::string maxnsizeDataFile=prefFileName;
+  maxnsizeDataFile=maxnsizeDataFile+".msinfo";
   if(anjm1ip_anji_maxnsize!=UNRESTRICTED_ANJM1IP_ANJI_SIZE)
   {
-    std::string maxnsizeDataFile=prefFileName;
-    maxnsizeDataFile=maxnsizeDataFile+".msinfo";
     retVal=print_maxnsize_data(maxnsizeDataFile.c_str());
     if(retVal==THOT_ERROR) return THOT_ERROR;
   }
+  else
+  {
+        // Discard maximum size data printed previously
+    remove(maxnsizeDataFile.c_str());
+  }
   
   return THOT_OK;
 }
-- 
2.43.0


From 2fceb10e80f178e99458d2245b5a482a9afdbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 33/81] fix: merging empty tables of counts gives an empty
 table

---
 src/sw_models/thot_merge_bin_ihmmatable.cc  | 3 ++-
 src/sw_models/thot_merge_bin_iibm2atable.cc | 3 ++-
 src/sw_models/thot_merge_bin_ilextable.cc   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sw_models/thot_merge_bin_ihmmatable.cc b/src/sw_models/thot_merge_bin_ihmmatable.cc
index 1775d75..e2545e7 100644
--- a/src/sw_models/thot_merge_bin_ihmmatable.cc
+++ b/src/sw_models/thot_merge_bin_ihmmatable.cc
@@ -176,7 +176,8 @@ int main(int argc,char *argv[])
       else end=true;
     }
         // Print last group of counts
-    printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
+    if(!first_entry)
+      printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
diff --git a/src/sw_models/thot_merge_bin_iibm2atable.cc b/src/sw_models/thot_merge_bin_iibm2atable.cc
index b832647..2ee08db 100644
--- a/src/sw_models/thot_merge_bin_iibm2atable.cc
+++ b/src/sw_models/thot_merge_bin_iibm2atable.cc
@@ -179,7 +179,8 @@ int main(int argc,char *argv[])
       else end=true;
     }
         // Print last group of counts
-    printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
+    if(!first_entry)
+      printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
diff --git a/src/sw_models/thot_merge_bin_ilextable.cc b/src/sw_models/thot_merge_bin_ilextable.cc
index f455cb5..6b63b91 100644
--- a/src/sw_models/thot_merge_bin_ilextable.cc
+++ b/src/sw_models/thot_merge_bin_ilextable.cc
@@ -172,7 +172,8 @@ int main(int argc,char *argv[])
       else end=true;
     }
         // Print last group of counts
-    printCounts(firstSrc,trgWordVec,lcSrc,lcSrcTrgVec);
+    if(!first_entry)
+      printCounts(firstSrc,trgWordVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
-- 
2.43.0


From 12397848de09321955bfdb5f9d1fd721eb338785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 34/81] fix: a vocabulary with gaps or repeated entries in its
 file stays a bijection

New words received the size of the vocabulary as index, even if a loaded
file already used that index for another word; and entries of a file
that gave a word or an index in use left stale entries behind.
---
 src/nlp_common/SingleWordVocab.cc | 31 +++++++++++++++++++++++++------
 src/nlp_common/SingleWordVocab.h  |  4 ++++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/nlp_common/SingleWordVocab.cc b/src/nlp_common/SingleWordVocab.cc
index f808f81..b84ca02 100644
--- a/src/nlp_common/SingleWordVocab.cc
+++ b/src/nlp_common/SingleWordVocab.cc
@@ -129,7 +129,9 @@ WordIndex SingleWordVocab::addSrcSymbol(std::string s)
  }
  else
  {
-   wordIndex=stringToSrcWordIndexMap.size();	
+   wordIndex=stringToSrcWordIndexMap.size();
+       // Skip indices given by a vocabulary file
+   while(srcWordIndexMapToString.find(wordIndex)!=srcWordIndexMapToString.end()) ++wordIndex;
    stringToSrcWordIndexMap[s]=wordIndex;
    srcWordIndexMapToString[wordIndex]=s; 
  }
@@ -163,8 +165,7 @@ bool SingleWordVocab::loadGIZASrcVocab(const char *srcInputVocabFileName)
      {
        if(awk.NF==2 || awk.NF==3)
        {
-         stringToSrcWordIndexMap[awk.dollar(2)]=atoi(awk.dollar(1).c_str());
-         srcWordIndexMapToString[atoi(awk.dollar(1).c_str())]=awk.dollar(2);   
+         setWordIndex(stringToSrcWordIndexMap,srcWordIndexMapToString,awk.dollar(2),atoi(awk.dollar(1).c_str()));
        }
        else
        {
@@ -279,7 +280,9 @@ WordIndex SingleWordVocab::addTrgSymbol(std::string t)
  }
  else
  {
-  wordIndex=stringToTrgWordIndexMap.size();	
+  wordIndex=stringToTrgWordIndexMap.size();
+      // Skip indices given by a vocabulary file
+  while(trgWordIndexMapToString.find(wordIndex)!=trgWordIndexMapToString.end()) ++wordIndex;
   stringToTrgWordIndexMap[t]=wordIndex;
   trgWordIndexMapToString[wordIndex]=t; 
  }
@@ -313,8 +316,7 @@ bool SingleWordVocab::loadGIZATrgVocab(const char *trgInputVocabFileName)
      {
        if(awk.NF==2 || awk.NF==3)
        {
-         stringToTrgWordIndexMap[awk.dollar(2)]=atoi(awk.dollar(1).c_str());
-         trgWordIndexMapToString[atoi(awk.dollar(1).c_str())]=awk.dollar(2);    
+         setWordIndex(stringToTrgWordIndexMap,trgWordIndexMapToString,awk.dollar(2),atoi(awk.dollar(1).c_str()));
        }
        else
        {
@@ -345,6 +347,23 @@ bool SingleWordVocab::printGIZATrgVocab(const char *outputFileName)
  return THOT_OK;
 }
 
+//-------------------------
+void SingleWordVocab::setWordIndex(StrToIdxVocab& strToIdx,
+                                   IdxToStrVocab& idxToStr,
+                                   const std::string& s,
+                                   WordIndex w)
+{
+      // Remove previous uses of the word or the index, so as to keep
+      // both maps inverse of each other
+  StrToIdxVocab::iterator strIter=strToIdx.find(s);
+  if(strIter!=strToIdx.end()) idxToStr.erase(strIter->second);
+  IdxToStrVocab::iterator idxIter=idxToStr.find(w);
+  if(idxIter!=idxToStr.end()) strToIdx.erase(idxIter->second);
+
+  strToIdx[s]=w;
+  idxToStr[w]=s;
+}
+
 //-------------------------
 void SingleWordVocab::clearSrcVocab(void)
 {
diff --git a/src/nlp_common/SingleWordVocab.h b/src/nlp_common/SingleWordVocab.h
index 1c72f48..6fc3476 100644
--- a/src/nlp_common/SingleWordVocab.h
+++ b/src/nlp_common/SingleWordVocab.h
@@ -141,6 +141,10 @@ class SingleWordVocab
    StrToIdxVocab stringToTrgWordIndexMap;
    IdxToStrVocab trgWordIndexMapToString;
       
+   void setWordIndex(StrToIdxVocab& strToIdx,
+                     IdxToStrVocab& idxToStr,
+                     const std::string& s,
+                     WordIndex w);
    void clearSrcVocab(void);
    void clearTrgVocab(void);
    void add_null_word_to_srcvoc(void);
-- 
2.43.0


From 17e298ff149497486e5128378a26d0d6cefb9be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 35/81] fix: an encoder gives one code to a word repeated in a
 vector

---
 src/incr_models/vecx_x_incr_enc.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index 8f5650e..50e77ef 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -225,8 +225,17 @@ std::vector<X> vecx_x_incr_enc<HX,X>::genHSrcCode(const std::vector<HX> &hs)
     iter=hx_to_x.find(hs[i]);
     if(iter==hx_to_x.end())
     {
-      ++x_object;
-      vecx.push_back(x_object);
+          // Use the same code if the object is repeated in hs
+      unsigned int j;
+      for(j=0;j<i;++j)
+        if(!(hs[j]<hs[i]) && !(hs[i]<hs[j])) break;
+      if(j<i)
+        vecx.push_back(vecx[j]);
+      else
+      {
+        ++x_object;
+        vecx.push_back(x_object);
+      }
     }
     else
     {
-- 
2.43.0


From 9834784f6a0331f7e083cd4cfa9967d49e88be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 36/81] fix: codes generated after loading an encoder differ
 from the loaded ones

load() did not update the last used code, so that new words of a loaded
LevelDB language model received the codes of other words; and it kept
entries of the previous contents, besides adding one entry that is not
in the file when the file is empty.
---
 src/incr_models/vecx_x_incr_enc.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index 50e77ef..3968b45 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -303,12 +303,13 @@ bool vecx_x_incr_enc<HX,X>::load(const char *prefixFileName)
   }
   else
   {
-    while(ifile)
+    this->clear();
+    while(ifile>>hx>>x)
     {
-      ifile>>hx>>x;
           //cout<<s<< " ||| " <<t<<" ||| "<<inf<<std::endl;
-      this->hx_to_x[hx]=x;
-      this->x_to_hx[x]=hx;
+      this->addHTrgCode(hx,x);
+          // New codes should be greater than the loaded ones
+      if(x_object<x) x_object=x;
     }
     return THOT_OK;
   }  
-- 
2.43.0


From dfc823a0402347d693c69ee8e8d981286cad2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 37/81] fix: clearing the encoder of a language model keeps the
 standard symbols

---
 src/incr_models/lm_ienc.cc | 13 +++++++++++++
 src/incr_models/lm_ienc.h  |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/src/incr_models/lm_ienc.cc b/src/incr_models/lm_ienc.cc
index d283ccc..457ea24 100644
--- a/src/incr_models/lm_ienc.cc
+++ b/src/incr_models/lm_ienc.cc
@@ -31,6 +31,19 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 //---------------
 lm_ienc::lm_ienc():vecx_x_incr_enc<std::string,WordIndex>()
+{
+  addStandardSymbols();
+}
+
+//---------------
+void lm_ienc::clear(void)
+{
+  vecx_x_incr_enc<std::string,WordIndex>::clear();
+  addStandardSymbols();
+}
+
+//---------------
+void lm_ienc::addStandardSymbols(void)
 {
       // Introduce standard symbols
   addHTrgCode(UNK_SYMBOL_STR,UNK_SYMBOL);
diff --git a/src/incr_models/lm_ienc.h b/src/incr_models/lm_ienc.h
index e1d3881..e57d9cc 100644
--- a/src/incr_models/lm_ienc.h
+++ b/src/incr_models/lm_ienc.h
@@ -64,6 +64,12 @@ class lm_ienc: public vecx_x_incr_enc<std::string,WordIndex>
    bool HighTrg_to_Trg(const std::string& ht,WordIndex& t);
        // The same for HX objects
 
+   void clear(void);
+       // Clears the encoder, keeping the standard symbols
+
+  protected:
+
+   void addStandardSymbols(void);
 };
 
 #endif
-- 
2.43.0


From b2b433a6e6cc13defa3741123ecba9f16c86d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 38/81] fix: training or evaluating all the sentence pairs of a
 model without pairs does not end

---
 src/sw_models/BaseSwAligModel.h    | 1 +
 src/sw_models/IncrIbm1AligModel.cc | 3 ++-
 src/sw_models/_incrHmmAligModel.cc | 3 ++-
 src/sw_models/_incrSwAligModel.h   | 3 ++-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sw_models/BaseSwAligModel.h b/src/sw_models/BaseSwAligModel.h
index dd8d6e1..8a4ca8c 100644
--- a/src/sw_models/BaseSwAligModel.h
+++ b/src/sw_models/BaseSwAligModel.h
@@ -304,6 +304,7 @@ std::pair<double,double> BaseSwAligModel<PPINFO>::loglikelihoodForPairRange(std:
 template<class PPINFO>
 std::pair<double,double> BaseSwAligModel<PPINFO>::loglikelihoodForAllSents(int verbosity/*=0*/)
 {
+  if(numSentPairs()==0) return std::make_pair(0.0,0.0);
   std::pair<unsigned int,unsigned int> sentPairRange=std::make_pair(0,numSentPairs()-1);
   return loglikelihoodForPairRange(sentPairRange,verbosity);
 }
diff --git a/src/sw_models/IncrIbm1AligModel.cc b/src/sw_models/IncrIbm1AligModel.cc
index deafc3f..83ca1d9 100644
--- a/src/sw_models/IncrIbm1AligModel.cc
+++ b/src/sw_models/IncrIbm1AligModel.cc
@@ -63,7 +63,8 @@ void IncrIbm1AligModel::trainSentPairRange(std::pair<unsigned int,unsigned int>
 //-------------------------   
 void IncrIbm1AligModel::trainAllSents(int verbosity)
 {
-  trainSentPairRange(std::make_pair(0,numSentPairs()-1),verbosity);
+  if(numSentPairs()>0)
+    trainSentPairRange(std::make_pair(0,numSentPairs()-1),verbosity);
 }
 
 //-------------------------
diff --git a/src/sw_models/_incrHmmAligModel.cc b/src/sw_models/_incrHmmAligModel.cc
index b8198d8..4ae3599 100644
--- a/src/sw_models/_incrHmmAligModel.cc
+++ b/src/sw_models/_incrHmmAligModel.cc
@@ -75,7 +75,8 @@ void _incrHmmAligModel::trainSentPairRange(std::pair<unsigned int,unsigned int>
 //-------------------------
 void _incrHmmAligModel::trainAllSents(int verbosity)
 {
-  trainSentPairRange(std::make_pair(0,numSentPairs()-1),verbosity);
+  if(numSentPairs()>0)
+    trainSentPairRange(std::make_pair(0,numSentPairs()-1),verbosity);
 }
 
 //-------------------------
diff --git a/src/sw_models/_incrSwAligModel.h b/src/sw_models/_incrSwAligModel.h
index 2399211..7b6e025 100644
--- a/src/sw_models/_incrSwAligModel.h
+++ b/src/sw_models/_incrSwAligModel.h
@@ -80,7 +80,8 @@ void _incrSwAligModel<PPINFO>::efficientBatchTrainingForRange(std::pair<unsigned
 template<class PPINFO>
 void _incrSwAligModel<PPINFO>::efficientBatchTrainingForAllSents(int verbosity/*=0*/)
 {
-  efficientBatchTrainingForRange(std::make_pair(0,this->numSentPairs()-1),verbosity);
+  if(this->numSentPairs()>0)
+    efficientBatchTrainingForRange(std::make_pair(0,this->numSentPairs()-1),verbosity);
 }
 
 //-------------------------
-- 
2.43.0


From e995bd17e8bf01df9453d8a48d66e86ad00023a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 39/81] fix: sentence pairs with count zero leave the sentence
 length model undefined

---
 src/sw_models/WeightedIncrNormSlm.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sw_models/WeightedIncrNormSlm.cc b/src/sw_models/WeightedIncrNormSlm.cc
index 79669ad..d32ecc8 100644
--- a/src/sw_models/WeightedIncrNormSlm.cc
+++ b/src/sw_models/WeightedIncrNormSlm.cc
@@ -189,6 +189,7 @@ bool WeightedIncrNormSlm::get_mean_stddev(unsigned int slen,
   {
     mean=get_mk(slen);
     float swk=get_swk(slen);
+    if(!(swk>0)) return false;
     float sk=get_sk(slen);
     stddev=sqrt((sk*k)/((k-1)*swk));
     return true;
@@ -359,9 +360,11 @@ void WeightedIncrNormSlm::trainSentPair(std::vector<std::string> srcSentVec,
     float temp=(float)c+swk;
     mk=get_mk(slen);
     sk=get_sk(slen);
-    sk=sk+(swk*(float)c*((tlen-mk)*(tlen-mk)))/temp;
+    if(temp>0)
+      sk=sk+(swk*(float)c*((tlen-mk)*(tlen-mk)))/temp;
     set_sk(slen,sk);
-    mk=mk+((tlen-mk)*(float)c)/temp;
+    if(temp>0)
+      mk=mk+((tlen-mk)*(float)c)/temp;
     set_mk(slen,mk);
     swk=temp;
     set_swk(slen,swk);
-- 
2.43.0


From 699f818bbcfa236d16a7280a9c2e8f2beaf17964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 40/81] fix: sentence files with different numbers of lines are
 rejected and not retained in part

---
 src/sw_models/LightSentenceHandler.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index 525f6a1..ad09d68 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -92,6 +92,13 @@ bool LightSentenceHandler::readSentencePairs(const char *srcFileName,
        if(!awkTrg.getln())
        {
          std::cerr<<"Error: the number of source and target sentences differ!"<<std::endl;
+         clear();
+         return THOT_ERROR;
+       }
+       if(countFileExists && !awkSrcTrgC.getln())
+       {
+         std::cerr<<"Error: there are less sentence counts than sentence pairs!"<<std::endl;
+         clear();
          return THOT_ERROR;
        }
 
-- 
2.43.0


From c386e8ef0bcf8192388d81a5dcd925092ea69e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 41/81] fix: printing sentence pairs to the files they are read
 from loses them

---
 src/sw_models/LightSentenceHandler.cc | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index ad09d68..387b016 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "LightSentenceHandler.h"
+#include <stdio.h>
 
 //--------------- LightSentenceHandler class function definitions
 
@@ -311,8 +312,16 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   std::ofstream trgOutF;
   std::ofstream countsOutF;
 
+      // The files being printed may be those from which sentence pairs
+      // are read, so they are replaced only once they are complete
+  std::string suffix;
+  if(nsPairsInFiles>0) suffix=".tmp";
+  std::string srcOutFileName=srcSentFile+suffix;
+  std::string trgOutFileName=trgSentFile+suffix;
+  std::string countsOutFileName=sentCountsFile+suffix;
+
       // Open file with source sentences
-  srcOutF.open(srcSentFile,std::ios::out);
+  srcOutF.open(srcOutFileName.c_str(),std::ios::out);
   if(!srcOutF)
   {
     std::cerr<<"Error while printing file with source sentences."<<std::endl;
@@ -320,7 +329,7 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   }
 
       // Open file with target sentences
-  trgOutF.open(trgSentFile,std::ios::out);
+  trgOutF.open(trgOutFileName.c_str(),std::ios::out);
   if(!trgOutF)
   {
     std::cerr<<"Error while printing file with target sentences."<<std::endl;
@@ -328,7 +337,7 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   }
 
       // Open file with sentence counts
-  countsOutF.open(sentCountsFile,std::ios::out);
+  countsOutF.open(countsOutFileName.c_str(),std::ios::out);
   if(!countsOutF)
   {
     std::cerr<<"Error while printing file with sentence counts."<<std::endl;
@@ -368,7 +377,18 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   srcOutF.close();
   trgOutF.close();
   countsOutF.close();
-  
+
+  if(!suffix.empty())
+  {
+    if(rename(srcOutFileName.c_str(),srcSentFile)!=0 ||
+       rename(trgOutFileName.c_str(),trgSentFile)!=0 ||
+       rename(countsOutFileName.c_str(),sentCountsFile)!=0)
+    {
+      std::cerr<<"Error while printing files with sentence pairs."<<std::endl;
+      return THOT_ERROR;
+    }
+  }
+
   return THOT_OK;
 }
 
-- 
2.43.0


From d6d81b4157fc8859218410e7e98bc16b03322fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:30 +0000
Subject: [PATCH 42/81] fix: printed sentence counts lose digits

---
 src/sw_models/LightSentenceHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index 387b016..2794256 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -26,6 +26,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 #include "LightSentenceHandler.h"
 #include <stdio.h>
+#include <iomanip>
 
 //--------------- LightSentenceHandler class function definitions
 
@@ -369,7 +370,7 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
     trgOutF<<std::endl;
       
         // print count
-    countsOutF<<c<<std::endl;
+    countsOutF<<std::setprecision(9)<<c<<std::endl;
   }
 
     
-- 
2.43.0


From dfb223dfc1d4fc1ce30e0bc6965e53cc2d60de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 43/81] fix: a sentence pair with count zero makes the lexical
 parameters undefined

---
 src/sw_models/IncrIbm1AligModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sw_models/IncrIbm1AligModel.cc b/src/sw_models/IncrIbm1AligModel.cc
index 83ca1d9..916d4e5 100644
--- a/src/sw_models/IncrIbm1AligModel.cc
+++ b/src/sw_models/IncrIbm1AligModel.cc
@@ -295,7 +295,7 @@ void IncrIbm1AligModel::fillEmAuxVars(unsigned int mapped_n,
   }
 
   float weighted_new_anji=(float)weight*anji_aux.get_invp_fast(mapped_n_aux,j,i);
-  if(weighted_new_anji!=0 && weighted_new_anji<SMOOTHING_WEIGHTED_ANJI)
+  if(weighted_new_anji<SMOOTHING_WEIGHTED_ANJI)
     weighted_new_anji=SMOOTHING_WEIGHTED_ANJI;
 
   WordIndex s=nsrcSent[i];
-- 
2.43.0


From 3708bc671d2d236a7377706145c72ca40e83ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 44/81] fix: rounding errors when expected values are taken
 back make the parameters of alignment models undefined

---
 src/nlp_common/MathFuncs.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index 38fc250..d86c632 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -366,6 +366,8 @@ namespace MathFuncs
   //-------------------------
   float lns_sublog_float(float logx,float logy)
   { 
+        // logy may exceed logx due to rounding errors
+    if(logy>logx) logy=logx;
     return logx+log(1-exp(logy-logx));
   }
 
-- 
2.43.0


From f0747696629624e7bee7e4786c4fc84557a73ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 45/81] fix: language model weights are read beyond their end
 for histories longer than the weights reach

---
 src/incr_models/_incrJelMerNgramLM.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/_incrJelMerNgramLM.h b/src/incr_models/_incrJelMerNgramLM.h
index 96f6bce..6f5a8a9 100644
--- a/src/incr_models/_incrJelMerNgramLM.h
+++ b/src/incr_models/_incrJelMerNgramLM.h
@@ -300,7 +300,9 @@ double _incrJelMerNgramLM<SRC_INFO,SRCTRG_INFO>::getJelMerWeight(const std::vect
 {
   if(numBucketsPerOrder==1)
   {
-    return weights[s.size()];
+        // There are no weights for orders higher than that of the weights
+    if(s.size()<weights.size()) return weights[s.size()];
+    else return 0;
   }
   else
   {
@@ -312,7 +314,9 @@ double _incrJelMerNgramLM<SRC_INFO,SRCTRG_INFO>::getJelMerWeight(const std::vect
       bucketIdx=numBucketsPerOrder-1;
     
         // Return weight
-    return weights[((order-1)*numBucketsPerOrder)+bucketIdx];
+    unsigned int weightIdx=((order-1)*numBucketsPerOrder)+bucketIdx;
+    if(weightIdx<weights.size()) return weights[weightIdx];
+    else return 0;
   }
 }
 
-- 
2.43.0


From 4a3618b38ab2abd9f99ac3f5d6207c167c097665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 46/81] fix: order of a loaded language model is lower than
 that of its weights if the training sentences were short

---
 src/incr_models/_incrJelMerNgramLM.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/incr_models/_incrJelMerNgramLM.h b/src/incr_models/_incrJelMerNgramLM.h
index 6f5a8a9..a5f1f3a 100644
--- a/src/incr_models/_incrJelMerNgramLM.h
+++ b/src/incr_models/_incrJelMerNgramLM.h
@@ -338,9 +338,13 @@ bool _incrJelMerNgramLM<SRC_INFO,SRCTRG_INFO>::load(const char *fileName)
   if(retval==THOT_ERROR) return THOT_ERROR;
 
       // load n-grams
+  unsigned int orderOfWeights=this->ngramOrder;
   retval=_incrNgramLM<SRC_INFO,SRCTRG_INFO>::load(fileName);
   if(retval==THOT_ERROR) return THOT_ERROR;
 
+      // The n-grams may be shorter than the order of the model
+  if(this->ngramOrder<orderOfWeights) this->ngramOrder=orderOfWeights;
+
   return THOT_OK;
 }
 
-- 
2.43.0


From 5fc47b95a1d1396b97d78c1858a273119c4c6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 47/81] fix: weights of a language model are lost when loading
 other weights fails

---
 src/incr_models/_incrJelMerNgramLM.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/incr_models/_incrJelMerNgramLM.h b/src/incr_models/_incrJelMerNgramLM.h
index a5f1f3a..358443c 100644
--- a/src/incr_models/_incrJelMerNgramLM.h
+++ b/src/incr_models/_incrJelMerNgramLM.h
@@ -371,7 +371,6 @@ bool _incrJelMerNgramLM<SRC_INFO,SRCTRG_INFO>::loadWeights(const char *prefixOfL
 
       // load weights
   AwkInputStream awk;
-  weights.clear();
   if(awk.open(weightFileName.c_str())==THOT_ERROR)
   {
     std::cerr<<"Error, file with weights "<<weightFileName<<" cannot be read"<<std::endl;
@@ -382,6 +381,7 @@ bool _incrJelMerNgramLM<SRC_INFO,SRCTRG_INFO>::loadWeights(const char *prefixOfL
     std::cerr<<"Loading weights from "<<weightFileName<<std::endl;
     if(awk.getln())
     {
+      weights.clear();
       this->ngramOrder=atoi(awk.dollar(1).c_str());
       numBucketsPerOrder=atoi(awk.dollar(2).c_str());
       sizeOfBucket=(double)atof(awk.dollar(3).c_str());
-- 
2.43.0


From 80dcebcd476e9c0e52b7ea608b9dcc661ba425e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 48/81] fix: blank lines in a file with n-grams give a language
 model a huge order

---
 src/incr_models/_incrNgramLM.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/incr_models/_incrNgramLM.h b/src/incr_models/_incrNgramLM.h
index 35118da..9a6eb21 100644
--- a/src/incr_models/_incrNgramLM.h
+++ b/src/incr_models/_incrNgramLM.h
@@ -483,7 +483,7 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // need to know the order before adding any n-gram)
     while(awk.getln())
     {
-      if(ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
+      if(awk.NF>2 && ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
     }
 
         // Rewind file
@@ -492,15 +492,12 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // Read n-grams
     while(awk.getln())
     {
-      if(awk.NF>1)
+      if(awk.NF>2)
       {
         hs.clear();
-        if(awk.NF>2)
+        for(i=1;i<awk.NF-2;++i)
         {
-          for(i=1;i<awk.NF-2;++i)
-          {
-            hs.push_back(awk.dollar(i));
-          }
+          hs.push_back(awk.dollar(i));
         }
         ht=awk.dollar(awk.NF-2);
         inf.first=atof(awk.dollar(awk.NF-1).c_str());
-- 
2.43.0


From 37bc1f6eb39b0f1951c83b96e24d55ec5e2efd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 49/81] fix: blank lines of a corpus are counted as sentences
 in the perplexity

---
 src/nlp_common/BaseNgramLM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/BaseNgramLM.h b/src/nlp_common/BaseNgramLM.h
index 89ddaf6..80e488f 100644
--- a/src/nlp_common/BaseNgramLM.h
+++ b/src/nlp_common/BaseNgramLM.h
@@ -289,9 +289,9 @@ int BaseNgramLM<LM_STATE>::perplexity(const char *corpusFileName,
           else std::cerr<<v[i]<<std::endl;
         }
       }
+      totalLogProb+=logp; 
+      ++numOfSentences;	 
     }
-    totalLogProb+=logp; 
-    ++numOfSentences;	 
   }
 
   perp=exp(-((double)totalLogProb/(numWords+numOfSentences))*M_LN10);
-- 
2.43.0


From 8b23b4ce8e96cf02bce6440e116d3a1ba5c52c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 50/81] fix: training a LevelDB language model does not update
 the total number of words

---
 src/incr_models/LevelDbNgramTable.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 2faca8a..d5135fc 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -348,6 +348,14 @@ void LevelDbNgramTable::incrCountsOfEntryLog(const std::vector<WordIndex>& s,
 
     // Update counts
     addSrcTrgInfo(s, t, src_trg_count);  // (s, t)
+
+    // The counts of the rest of the sources are those of the n-grams
+    if (s.size() == 0)
+    {
+        Count src_count = cSrc(s);
+        src_count.incr_logcount((float) lc);
+        addSrcInfo(s, src_count);
+    }
 }
 
 //-------------------------
-- 
2.43.0


From 395144febdcb0608ad78aa1f2a7b1434072a8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 51/81] fix: n-gram counts stored in LevelDB are rounded to six
 digits

---
 src/incr_models/LevelDbNgramTable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index d5135fc..43bc5e4 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -150,6 +150,7 @@ bool LevelDbNgramTable::retrieveData(const std::vector<WordIndex>& phrase, float
 bool LevelDbNgramTable::storeData(const std::string key, float count)
 {
     std::stringstream ss;
+    ss.precision(9);
     ss << count;
     std::string count_str = ss.str();
 
-- 
2.43.0


From 94baee5b7441003ae21830a025bbecd83612d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:37 +0000
Subject: [PATCH 52/81] fix: words learnt by a LevelDB language model are lost
 when it is printed

---
 src/incr_models/IncrJelMerLevelDbNgramLM.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/incr_models/IncrJelMerLevelDbNgramLM.cc b/src/incr_models/IncrJelMerLevelDbNgramLM.cc
index 07add37..51c1efc 100644
--- a/src/incr_models/IncrJelMerLevelDbNgramLM.cc
+++ b/src/incr_models/IncrJelMerLevelDbNgramLM.cc
@@ -117,6 +117,12 @@ bool IncrJelMerLevelDbNgramLM::print(const char *fileName)
   {
         // Print weights
     int ret=printWeights(fileName);
+    if(ret==THOT_ERROR)
+      return THOT_ERROR;
+
+        // Print vocabulary (it may have grown since it was loaded)
+    std::string vocabFileName=ngramTableFileNameLoaded+".ldb_vcb";
+    ret=this->encPtr->print(vocabFileName.c_str());
     if(ret==THOT_ERROR)
       return THOT_ERROR;
 
-- 
2.43.0


From 2fe6a11cae0b5bc356b06e6848af9fd451034ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 53/81] fix: target counts of n-gram tables count the first
 word of the n-grams instead of the last one

---
 src/incr_models/vecx_x_incr_cptable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index febd76e..6c055fe 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -598,7 +598,7 @@ template<class X,class SRC_INFO,class SRCTRG_INFO>
 Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
 {
   typename SrcTrgInfo::const_iterator titer;
-  Count c_t=SMALL_LG_NUM;
+  Count c_t=0;
   
   for(titer=srcTrgInfo.begin();titer!=srcTrgInfo.end();++titer)
   {
@@ -606,7 +606,7 @@ Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           c_t=(float)c_t+(float)titer->second.get_c_st();
         }
@@ -677,7 +677,7 @@ LogCount vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::lcTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           lc_t=MathFuncs::lns_sumlog(lc_t,titer->second.get_lc_st());
         }
-- 
2.43.0


From b43231aeb4f4595d7cddae3db11dd4fd7b10f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 54/81] fix: n-grams whose history has no count make n-gram
 tables crash or give them infinite probabilities

---
 src/incr_models/vecx_x_incr_cptable.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index 6c055fe..274986b 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -391,7 +391,7 @@ LgProb vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::logpTrgGivenSrc(const std::v
   }
   else
   {
-    if((float)psst.first<=SMALL_LG_NUM) return SMALL_LG_NUM;
+    if((float)psst.first==0) return SMALL_LG_NUM;
     else
     {
       return (float)psst.second.get_lc_st()-(float)psst.first.get_lc_s();
@@ -453,7 +453,8 @@ bool vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getEntriesForSource(const std:
         if(vecx==s)
         {
           pdp.first=titer->first.back();
-          pdp.second.first=*siPtr;
+          if(siPtr!=NULL) pdp.second.first=*siPtr;
+          else pdp.second.first=0;
           pdp.second.second=titer->second;
           trgtn.insert(pdp);
         }
@@ -487,7 +488,7 @@ vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getEntriesForTarget(const X& t,type
           {
             pdp.first.push_back(titer->first[i]);
           }
-          pdp.second.first=*srcInfo.find(pdp.first);
+          pdp.second.first=cSrc(pdp.first);
           pdp.second.second=titer->second;
           tnode.insert(pdp);
         }
@@ -504,17 +505,14 @@ bool vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getNbestForSrc(const std::vect
 {
   TrgTableNode tnode;
   typename TrgTableNode::iterator tNodeIter;
-  SRC_INFO* siPtr;
   bool ret;
 
   nbt.clear();
   ret=getEntriesForSource(s,tnode);
 
-  siPtr=srcInfo.find(s);
-
   for(tNodeIter=tnode.begin();tNodeIter!=tnode.end();++tNodeIter)
   {
-    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)siPtr->get_lc_s(),tNodeIter->first);
+    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)tNodeIter->second.first.get_lc_s(),tNodeIter->first);
   }
   return ret;  
 }
@@ -533,10 +531,7 @@ bool vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getNbestForTrg(const X& t,
   ret=getEntriesForTarget(t,tnode);
   for(tNodeIter=tnode.begin();tNodeIter!=tnode.end();++tNodeIter)
   {
-    SRC_INFO* siPtr;
-
-    siPtr=srcInfo.find(tNodeIter->first);
-    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)siPtr->get_lc_s(),tNodeIter->first);
+    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)tNodeIter->second.first.get_lc_s(),tNodeIter->first);
   }
 
   if(N>=0)
-- 
2.43.0


From b5d37f5d411486be77c08594501020f910b54772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 55/81] fix: entries for the empty history of a LevelDB n-gram
 table are read out of bounds

---
 src/incr_models/LevelDbNgramTable.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 43bc5e4..69d637f 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -508,6 +508,11 @@ bool LevelDbNgramTable::getEntriesForSource(const std::vector<WordIndex>& s,
     bool found;
     std::pair<WordIndex, im_pair<Count, Count> > pdp;  // Data structure format: (t, (count(s), count(s, t)))
 
+    trgtn.clear();  // Make sure that structure does not keep old values
+
+    if (s.size() == 0)
+        return false;
+
     Count s_count = cSrc(s);  // Retrieve count(s)
 
     // Define key range in which we look for target phrases
@@ -527,8 +532,6 @@ bool LevelDbNgramTable::getEntriesForSource(const std::vector<WordIndex>& s,
     // Iterate over the defined key range and populate valid results
     leveldb::Iterator* it = db->NewIterator(leveldb::ReadOptions());
     
-    trgtn.clear();  // Make sure that structure does not keep old values
-    
     for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next())
     {
         std::vector<WordIndex> vec = keyToVector(it->key().ToString());
-- 
2.43.0


From 2490ecedcfc873c2ce7a317d74de116bd964d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 56/81] fix: negative inverse probabilities in LevelDB n-gram
 tables

---
 src/incr_models/LevelDbNgramTable.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 69d637f..3b8b3aa 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -460,16 +460,21 @@ Prob LevelDbNgramTable::pSrcGivenTrg(const std::vector<WordIndex>& s,
         if ((float) t_count > 0)
             return (float) st_count.get_c_st() / (float) t_count.get_c_s();
         else
-            return SMALL_LG_NUM;
+            return 0;
     }
-    else return SMALL_LG_NUM;
+    else return 0;
 }
 
 //-------------------------
 LgProb LevelDbNgramTable::logpSrcGivenTrg(const std::vector<WordIndex>& s,
                                           const WordIndex& t)
 {
-    return pSrcGivenTrg(s,t).get_lp();
+    Prob p = pSrcGivenTrg(s, t);
+
+    if ((double) p == 0.0)
+        return SMALL_LG_NUM;
+
+    return p.get_lp();
 }
 
 //-------------------------
-- 
2.43.0


From edce2f13f355871fcf12998eca0ac36b9b518780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 57/81] fix: the translator stays locked for ever if the
 parameters of a user cannot be initialized

---
 src/stack_dec/ThotDecoder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 6f4b76d..ca1939b 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1063,10 +1063,10 @@ int ThotDecoder::initUserPars(int user_id,
       // Load preproc. info if requested
   if(tdup.sp && tdup.uc_str!="")
     ret=use_caseconv(user_id,tdup.uc_str.c_str(),verbose);
-  if(ret==THOT_ERROR) return THOT_ERROR;
 
       // Set cat weights
-  set_catw(user_id,tdup.catWeightsVec,verbose);
+  if(ret==THOT_OK)
+    set_catw(user_id,tdup.catWeightsVec,verbose);
 
       // Unlock non_atomic_op_cond mutex
   pthread_mutex_unlock(&non_atomic_op_mut);
@@ -1074,7 +1074,7 @@ int ThotDecoder::initUserPars(int user_id,
   /////////// end of mutex 
   pthread_mutex_unlock(&atomic_op_mut);
 
-  return THOT_OK;
+  return ret;
 }
 
 //--------------------------
-- 
2.43.0


From a93195b6da68dff652dd898e8470fe503e261475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 58/81] fix: translator requests crash after asking for an
 unsupported pre/post-processing

---
 src/stack_dec/ThotDecoder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index ca1939b..7eef744 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1408,6 +1408,7 @@ void ThotDecoder::set_preproc(int user_id,
       break;
 #endif
     default: tdPerUserVarsVec[idx].prePosProcessorPtr=0;
+      tdState.preprocId=DISABLE_PREPROC;
       if(verbose)
         StdCerrThreadSafe<<"user_id: "<<user_id<<", warning! invalid preprocId, the pre/pos-processing steps are disabled"<<std::endl;
       break;
-- 
2.43.0


From 307a4e1856ec554972b59a554305170a04db7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 59/81] fix: creating the data of a user moves the data being
 used by the requests of other users

---
 src/stack_dec/ThotDecoder.h | 56 +++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.h b/src/stack_dec/ThotDecoder.h
index 91da400..db42a19 100644
--- a/src/stack_dec/ThotDecoder.h
+++ b/src/stack_dec/ThotDecoder.h
@@ -60,6 +60,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 #include <options.h>
 #include <pthread.h>
 #include <sstream>
+#include <deque>
 
 //--------------- Constants ------------------------------------------
 
@@ -82,6 +83,55 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 //--------------- Classes --------------------------------------------
 
+//--------------- PerUserVec class template
+
+// Vector with the data of each user. Adding elements does not move those
+// being used by other threads
+
+template<class DATA_TYPE>
+class PerUserVec
+{
+ public:
+  PerUserVec(void){pthread_mutex_init(&mut,NULL);}
+  ~PerUserVec(){pthread_mutex_destroy(&mut);}
+  
+  void push_back(const DATA_TYPE& data)
+  {
+    pthread_mutex_lock(&mut);
+    elems.push_back(data);
+    pthread_mutex_unlock(&mut);
+  }
+  DATA_TYPE& operator[](size_t idx)
+  {
+    pthread_mutex_lock(&mut);
+    DATA_TYPE& result=elems[idx];
+    pthread_mutex_unlock(&mut);
+    return result;
+  }
+  size_t size(void)
+  {
+    pthread_mutex_lock(&mut);
+    size_t result=elems.size();
+    pthread_mutex_unlock(&mut);
+    return result;
+  }
+  bool empty(void){return size()==0;}
+  void clear(void)
+  {
+    pthread_mutex_lock(&mut);
+    elems.clear();
+    pthread_mutex_unlock(&mut);
+  }
+
+ private:
+  std::deque<DATA_TYPE> elems;
+  pthread_mutex_t mut;
+
+      // Objects of this class cannot be copied
+  PerUserVec(const PerUserVec&);
+  PerUserVec& operator=(const PerUserVec&);
+};
+
 //--------------- ThotDecoder class
 
 class ThotDecoder
@@ -173,8 +223,8 @@ class ThotDecoder
   std::vector<bool> idxDataReleased;
   ThotDecoderState tdState;
   ThotDecoderCommonVars tdCommonVars;
-  std::vector<ThotDecoderPerUserVars> tdPerUserVarsVec;
-  std::vector<std::string> totalPrefixVec;
+  PerUserVec<ThotDecoderPerUserVars> tdPerUserVarsVec;
+  PerUserVec<std::string> totalPrefixVec;
 
       // Mutexes and conditions
   pthread_mutex_t user_id_to_idx_mut;
@@ -183,7 +233,7 @@ class ThotDecoder
   pthread_mutex_t preproc_mut;
   pthread_cond_t non_atomic_op_cond;
   unsigned int non_atomic_ops_running;
-  std::vector<pthread_mutex_t> per_user_mut;
+  PerUserVec<pthread_mutex_t> per_user_mut;
   
       // Mutex- and condition-related functions
   void wait_on_non_atomic_op_cond(void);
-- 
2.43.0


From 93a7e854b982333ba2de937fdef5a46e75ae98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 60/81] fix: requests of a user use its data after being
 released

---
 src/stack_dec/ThotDecoder.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 7eef744..05fe3f8 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -333,6 +333,13 @@ bool ThotDecoder::user_id_new(int user_id)
 //--------------------------
 void ThotDecoder::release_user_data(int user_id)
 {
+  pthread_mutex_lock(&atomic_op_mut);
+  /////////// begin of mutex 
+
+      // Wait until all non-atomic operations have finished, since they
+      // could be using the data to be released
+  wait_on_non_atomic_op_cond();
+
   pthread_mutex_lock(&user_id_to_idx_mut);
   /////////// begin of mutex 
   std::map<int,size_t>::iterator mapIter;
@@ -341,11 +348,18 @@ void ThotDecoder::release_user_data(int user_id)
   mapIter=userIdToIdx.find(user_id);
   if(mapIter!=userIdToIdx.end())
   {
-        // Release user data
+        // Release user data and forget its idx
     release_idx_data(mapIter->second);
+    userIdToIdx.erase(mapIter);
   }
   /////////// end of mutex 
   pthread_mutex_unlock(&user_id_to_idx_mut);  
+
+      // Unlock non_atomic_op_cond mutex
+  pthread_mutex_unlock(&non_atomic_op_mut);
+
+  /////////// end of mutex 
+  pthread_mutex_unlock(&atomic_op_mut);
 }
 
 //--------------------------
-- 
2.43.0


From 0c0360b99be65be0cfdd1d763302c29abe249b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 61/81] fix: user identifiers are accessed without lock while
 clearing the translator

---
 src/stack_dec/ThotDecoder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 05fe3f8..552cdbe 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -2691,6 +2691,9 @@ void ThotDecoder::clearTrans(int /*verbose=0*/)
   tdCommonVars.ecModelPtr->clear();
   tdCommonVars.stdFeatureHandler.clear();
   tdCommonVars.customFeatureHandler.clear();
+
+  pthread_mutex_lock(&user_id_to_idx_mut);
+  /////////// begin of mutex 
   for(size_t i=0;i<tdPerUserVarsVec.size();++i)
   {
     release_idx_data(i);
@@ -2700,6 +2703,8 @@ void ThotDecoder::clearTrans(int /*verbose=0*/)
   totalPrefixVec.clear();
   userIdToIdx.clear();
   idxDataReleased.clear();
+  /////////// end of mutex 
+  pthread_mutex_unlock(&user_id_to_idx_mut);
 
       // Unlock non_atomic_op_cond mutex
   pthread_mutex_unlock(&non_atomic_op_mut);
-- 
2.43.0


From c284c91ae23e1f421f8242c530696b5aa95bd376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:52 +0000
Subject: [PATCH 62/81] fix: weights are printed using data of users which is
 being created or was released

---
 src/stack_dec/ThotDecoder.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 552cdbe..e83fd38 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -2797,6 +2797,9 @@ int ThotDecoder::printModelWeights(void)
   pthread_mutex_lock(&atomic_op_mut);
   /////////// begin of mutex 
 
+      // Wait until all non-atomic operations have finished
+  wait_on_non_atomic_op_cond();
+
       // Print smt model weights
   std::cout<<"- SMT model weights= ";
   tdCommonVars.smtModelPtr->printWeights(std::cout);
@@ -2808,6 +2811,9 @@ int ThotDecoder::printModelWeights(void)
   std::cout<<"- Error correction model weights= ";
   tdCommonVars.ecModelPtr->printWeights(std::cout);
   std::cout<<std::endl;
+
+      // Unlock non_atomic_op_cond mutex
+  pthread_mutex_unlock(&non_atomic_op_mut);
   
   /////////// end of mutex 
   pthread_mutex_unlock(&atomic_op_mut);
@@ -2819,10 +2825,14 @@ int ThotDecoder::printModelWeights(void)
 int ThotDecoder::printCatWeights(void)
 {
       // Check if an assisted translator has been previously instantiated
-  if(!tdPerUserVarsVec.empty())
+      // (and not released)
+  size_t idx=0;
+  while(idx<tdPerUserVarsVec.size() && idxDataReleased[idx])
+    ++idx;
+  if(idx<tdPerUserVarsVec.size())
   {
     std::cout<<"- Assisted translator weights= ";
-    tdPerUserVarsVec[0].assistedTransPtr->printWeights(std::cout);
+    tdPerUserVarsVec[idx].assistedTransPtr->printWeights(std::cout);
     std::cout << std::endl;
   }
   else
-- 
2.43.0


From b6c7bcafbdc69d7fb4fb4ecd4283f9653b3dd98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:09 +0000
Subject: [PATCH 63/81] fix: an assisted translation uses the word graph of a
 sentence translated later by the same user

---
 src/stack_dec/WgUncoupledAssistedTrans.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/WgUncoupledAssistedTrans.h b/src/stack_dec/WgUncoupledAssistedTrans.h
index 6ff1c84..6933aae 100644
--- a/src/stack_dec/WgUncoupledAssistedTrans.h
+++ b/src/stack_dec/WgUncoupledAssistedTrans.h
@@ -335,7 +335,11 @@ WgUncoupledAssistedTrans<SMT_MODEL>::obtainWgUsingTranslator(std::string s,
       // Set flag
   completeHypReachable=smtm_ptr->isComplete(hyp);
   
-  return sdr_ptr->getWordGraphPtr();
+      // The word-graph of the translator changes when translating other
+      // sentences
+  *wg_ptr=*sdr_ptr->getWordGraphPtr();
+  
+  return wg_ptr;
 }
 
 //---------------------------------
-- 
2.43.0


From 5a3bb112ad41afd1903aa0e09564a0f1ae733c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:02 +0000
Subject: [PATCH 64/81] fix: requests and replies are misread when they arrive
 in pieces or the peer disconnects

---
 src/nlp_common/BasicSocketUtils.cc | 115 +++++++++++++++++------------
 1 file changed, 69 insertions(+), 46 deletions(-)

diff --git a/src/nlp_common/BasicSocketUtils.cc b/src/nlp_common/BasicSocketUtils.cc
index e5cb7cc..67e9cad 100644
--- a/src/nlp_common/BasicSocketUtils.cc
+++ b/src/nlp_common/BasicSocketUtils.cc
@@ -26,6 +26,52 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 namespace BasicSocketUtils
 {
+  //---------------
+  static void recvBytes(int s,
+                        char* buff,
+                        size_t len,
+                        const char* errorMsg)
+  {
+        // A single call to recv() may return only part of the data
+    size_t received=0;
+    while(received<len)
+    {
+      int numbytes=recv(s,buff+received,len-received,0);
+      if(numbytes==-1 && errno==EINTR)
+        continue;
+      if(numbytes<=0)
+      {
+            // recv() error or connection closed by the peer
+        if(numbytes==-1)
+          std::cerr<<"recv() error!"<<std::endl;
+        throw std::runtime_error(errorMsg);
+      }
+      received+=numbytes;
+    }
+  }
+
+  //---------------
+  static void writeBytes(int fd,
+                         const char* buff,
+                         size_t len,
+                         const char* errorMsg)
+  {
+        // A single call to write() may accept only part of the data
+    size_t written=0;
+    while(written<len)
+    {
+      int numbytes=write(fd,buff+written,len-written);
+      if(numbytes==-1 && errno==EINTR)
+        continue;
+      if(numbytes<=0)
+      {
+        std::cerr<<"write() error"<<std::endl;
+        throw std::runtime_error(errorMsg);
+      }
+      written+=numbytes;
+    }
+  }
+
   //---------------
   int init(void)
   {
@@ -48,15 +94,9 @@ namespace BasicSocketUtils
     int  numbytes;
 
     numbytes=recvInt(s);
-    if(numbytes>0)
-    {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
-      {
-            // recv() call
-        std::cerr<<"recv() error!"<<std::endl;
-        throw std::runtime_error("Socket error: Cannot read string");
-      }
-    }
+    if(numbytes<0)
+      throw std::runtime_error("Socket error: Wrong string length");
+    recvBytes(s,str,numbytes,"Socket error: Cannot read string");
     str[numbytes] = '\0';
     return numbytes;
   }
@@ -65,42 +105,34 @@ namespace BasicSocketUtils
   int recvStlStr(int s,std::string& stlstr)
   {
     int  numbytes;
-    char* str=NULL;
 
     numbytes=recvInt(s);
-    str=(char*) mem_alloc_utils::my_realloc(str,(numbytes+1)*sizeof(char));
-    if(numbytes>0)
+    if(numbytes<0)
+      throw std::runtime_error("Socket error: Wrong string length");
+
+        // Memory is reserved as data arrives, since the length sent by
+        // the peer cannot be trusted
+    char buff[NETWORK_BUFF_SIZE];
+    std::string result;
+    while(result.size()<(size_t)numbytes)
     {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
-      {
-            // recv() call
-        std::cerr<<"recv() error!"<<std::endl;
-        free(str);
-        throw std::runtime_error("Socket error: Cannot read STL string");
-      }
+      size_t len=numbytes-result.size();
+      if(len>sizeof(buff))
+        len=sizeof(buff);
+      recvBytes(s,buff,len,"Socket error: Cannot read STL string");
+      result.append(buff,len);
     }
-    str[numbytes] = '\0';
-    stlstr=str;
-    free(str);
+    stlstr=result.c_str();
     return numbytes;
   }
 
   //---------------
   int recvInt(int s)
   {
-    int numbytes;
     int receivedInt;
 
-    if ((numbytes=recv(s,(char*)&receivedInt,sizeof(int),0)) == -1)
-    {
-          // recv() call
-      std::cerr<<"recv() error!"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot read integer");
-    }
-    else
-    {
-      receivedInt=ntohl(receivedInt);
-    }
+    recvBytes(s,(char*)&receivedInt,sizeof(int),"Socket error: Cannot read integer");
+    receivedInt=ntohl(receivedInt);
     return receivedInt;
   }
 
@@ -126,15 +158,9 @@ namespace BasicSocketUtils
   //--------------------------
   int writeInt(int fd,int i)
   {
-    int ret;
-
     i=htonl(i);
-    if((ret=write(fd,(char*) &i,sizeof(i)))==-1)
-    {
-      std::cerr<<"write() error"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot write integer");
-    }
-    return ret;
+    writeBytes(fd,(char*) &i,sizeof(i),"Socket error: Cannot write integer");
+    return sizeof(i);
   }
   //--------------------------
   int writeStr(int fd,const char* s)
@@ -146,11 +172,8 @@ namespace BasicSocketUtils
     ret+=writeInt(fd,numbytes);
     if(numbytes>0)
     {
-     if((ret+=write(fd,(char*) s,numbytes))==-1)
-     {
-       std::cerr<<"write() error"<<std::endl;
-       throw std::runtime_error("Socket error: Cannot write string");
-     }
+      writeBytes(fd,s,numbytes,"Socket error: Cannot write string");
+      ret+=numbytes;
     }
     return ret;
   }
-- 
2.43.0


From 405847147af20fbba5b30ae53743e342960a7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:02 +0000
Subject: [PATCH 65/81] fix: the server clears its models while requests are
 still being processed

---
 src/stack_dec/thot_server.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 6231ac6..956d8f4 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -334,6 +334,9 @@ int start_server(void)
       // Wait for threads to finish
   wait_on_num_threads_var_cond();
 
+      // Clear data structures once they are not being used
+  thotDecoderPtr->clearTrans(ts_pars.v_given);
+
   if(ts_pars.v_given || ts_pars.vd_given)
     StdCerrThreadSafe<<"Server: shutting down"<<std::endl;
 
@@ -526,10 +529,10 @@ void process_request_switch(int sockd,
       break;
 
     case END_SERVER: // NOTE: this request only involves sending
-                     // acknowledgement message to client and clearing
-                     // data structures, end_server variable is not
-                     // modified from here
-      thotDecoderPtr->clearTrans(verbose);
+                     // acknowledgement message to client. Data
+                     // structures are cleared when all of the requests
+                     // have been processed and end_server variable is
+                     // not modified from here
       BasicSocketUtils::writeInt(sockd,THOT_OK);
       break;
   }
-- 
2.43.0


From 7fae519b495850b0386349c5b0da9354b61061db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:02 +0000
Subject: [PATCH 66/81] fix: connections are not closed if the server cannot
 create a thread

---
 src/stack_dec/thot_server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 956d8f4..1a5e86d 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -318,6 +318,7 @@ int start_server(void)
       delete rdata_ptr;
       
       StdCerrThreadSafe<<"Warning: call to pthread_create failed"<<std::endl;
+      close(new_fd);
     }
     else
     {
-- 
2.43.0


From 9f08283f7fc5d6929d909841b5abeb987831df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:02 +0000
Subject: [PATCH 67/81] fix: a request to end the server is obeyed although the
 client leaves before completing it

---
 src/stack_dec/thot_server.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 1a5e86d..abbc268 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -274,10 +274,6 @@ int start_server(void)
       continue;
     }
 
-        // Check if server should be finished
-    if(request_type==END_SERVER)
-      end_server=true;
-      
         // Obtain user identifier
     int user_id;
     ret=get_user_id(new_fd,user_id);
@@ -288,6 +284,10 @@ int start_server(void)
       continue;
     }
 
+        // Check if server should be finished
+    if(request_type==END_SERVER)
+      end_server=true;
+
         // Init user parameters if required
     ret=init_user_pars_if_required(user_id);
     if(ret==THOT_ERROR)
-- 
2.43.0


From d9787e93f0007e4a098976c465358e6e246f8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 68/81] fix: the weights of a corpus without positive quality
 are not lost

---
 src/stack_dec/KbMiraLlWu.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stack_dec/KbMiraLlWu.cc b/src/stack_dec/KbMiraLlWu.cc
index 1ca4bae..47d366b 100644
--- a/src/stack_dec/KbMiraLlWu.cc
+++ b/src/stack_dec/KbMiraLlWu.cc
@@ -68,12 +68,12 @@ void KbMiraLlWu::update(const std::string& reference,
 
   assert (nblist.size() == scoreCompsVec.size());
 
-  std::vector<double> max_wAvg;
-  double quality, max_quality = 0;
+  std::vector<double> max_wAvg(currWeightsVec);
+  double quality, max_quality = -DBL_MAX;
 
   scorer->resetBackgroundCorpus();
   for (unsigned int nReStarts=0; nReStarts<maxRestarts; nReStarts++) {
-    double iter_max_quality = 0;
+    double iter_max_quality = -DBL_MAX;
     unsigned int iter_max_j = 0, nUpdates = 1;
     std::vector<double> wt(currWeightsVec);
     std::vector<double> wTotals(currWeightsVec);
@@ -163,12 +163,12 @@ void KbMiraLlWu::updateClosedCorpus(const std::vector<std::string>& references,
   // std::cerr << bleu << std::endl;
   // //##########################################################################
 
-  std::vector<double> max_wAvg;
-  double quality, max_quality = 0;
+  std::vector<double> max_wAvg(currWeightsVec);
+  double quality, max_quality = -DBL_MAX;
 
   scorer->resetBackgroundCorpus();
   for (unsigned int nReStarts=0; nReStarts<maxRestarts; nReStarts++) {
-    double iter_max_quality = 0;
+    double iter_max_quality = -DBL_MAX;
     unsigned int iter_max_j = 0, nUpdates = 1;
     std::vector<double> wt(currWeightsVec);
     std::vector<double> wTotals(currWeightsVec);
-- 
2.43.0


From 9ef473ad62cf9b90a6e326894d8d2d417d886e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 69/81] fix: BLEU does not exceed one when there are no n-grams
 of some order

---
 src/stack_dec/MiraBleu.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/MiraBleu.cc b/src/stack_dec/MiraBleu.cc
index 9b12c9c..5a6482d 100644
--- a/src/stack_dec/MiraBleu.cc
+++ b/src/stack_dec/MiraBleu.cc
@@ -40,8 +40,8 @@ double MiraBleu::scoreFromStats(std::vector<unsigned int>& stats){
   for (unsigned int sz=1; sz<=4; sz++) {
     unsigned int prec = stats[sz*2];
     unsigned int total = stats[sz*2+1];
-    if (total == 0) log_aux += 1;
-    else            log_aux += (double)my_log((double)prec/total);
+      // There is nothing to get wrong if there are no n-grams
+    if (total != 0) log_aux += (double)my_log((double)prec/total);
   }
   log_aux /= 4;
   return bp * (double)exp(log_aux);
-- 
2.43.0


From 63151ad72de029f279fac47b09b82c5be8c6d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 70/81] fix: GTM scores zero when there are no matchings

---
 src/stack_dec/MiraGtm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stack_dec/MiraGtm.cc b/src/stack_dec/MiraGtm.cc
index 59f0411..de8f943 100644
--- a/src/stack_dec/MiraGtm.cc
+++ b/src/stack_dec/MiraGtm.cc
@@ -160,6 +160,9 @@ double MiraGtm::scoreFromStats(std::vector<unsigned int>& stats){
   // stats = [matchings, candidate_len, reference_len]
   double pre, rec, f1;
 
+  if (stats[0] == 0)
+    return 0;
+
   pre = double(stats[0])/stats[1];
   rec = double(stats[0])/stats[2];
 
-- 
2.43.0


From 25c31f4b6dcd141461fd5878482bac2f255ac057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 71/81] fix: chrF only averages the precision of existing
 n-grams

---
 src/stack_dec/chrf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/chrf.cc b/src/stack_dec/chrf.cc
index be9abca..933f82d 100644
--- a/src/stack_dec/chrf.cc
+++ b/src/stack_dec/chrf.cc
@@ -166,7 +166,9 @@ void calculate_chrf(const std::string& refSentence,
         float recall;
 
         count_ngrams(refSentenceTokenized,sysSentenceTokenized,i,precision,recall,count);
-        totalPrecision += precision;
+            // Precision is only defined if the translation has n-grams of
+            // this length
+        if(i<=sysSentenceTokenized.size()) totalPrecision += precision;
         totalRecall += recall;
     }
 
-- 
2.43.0


From 38b27b1bf5e76b79a4576809a0375ae187d15c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 72/81] fix: an empty corpus has a chrF of zero

---
 src/stack_dec/MiraChrF.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/MiraChrF.cc b/src/stack_dec/MiraChrF.cc
index c197f56..febbc49 100644
--- a/src/stack_dec/MiraChrF.cc
+++ b/src/stack_dec/MiraChrF.cc
@@ -57,5 +57,5 @@ void MiraChrF::corpusScore(const std::vector<std::string>& candidates,
         score += sentenceScore;
     }
 
-    score /= candidates.size();
+    if(!candidates.empty()) score /= candidates.size();
 }
-- 
2.43.0


From 81440a87adf33f989fb45b851b4cb4484f849c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 73/81] fix: thot_scorer checks the number of sentences

---
 src/stack_dec/thot_scorer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stack_dec/thot_scorer.cc b/src/stack_dec/thot_scorer.cc
index 87ca35d..3c5dc36 100644
--- a/src/stack_dec/thot_scorer.cc
+++ b/src/stack_dec/thot_scorer.cc
@@ -240,6 +240,13 @@ int calc_score(const thot_scorer_pars& pars)
   if(retVal==THOT_ERROR)
     return THOT_ERROR;
 
+      // Check that there is one reference per system sentence
+  if(referenceVec.size()!=sysSentVec.size())
+  {
+    std::cerr<<"Error: the number of reference and system sentences is different"<<std::endl;
+    return THOT_ERROR;
+  }
+
       // Calculate score
   double score;
   baseScorerPtr->corpusScore(sysSentVec,
-- 
2.43.0


From 169a377cdd4a6c7e6c2cf724fdc461ac50357c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 74/81] fix: -va is optional in thot_ll_weight_upd_nblist

---
 src/stack_dec/thot_ll_weight_upd_nblist.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/thot_ll_weight_upd_nblist.cc b/src/stack_dec/thot_ll_weight_upd_nblist.cc
index 0836e66..664d795 100644
--- a/src/stack_dec/thot_ll_weight_upd_nblist.cc
+++ b/src/stack_dec/thot_ll_weight_upd_nblist.cc
@@ -228,7 +228,7 @@ int checkParameters(thot_llwu_nblist_pars& pars)
     return THOT_ERROR;   
   }
 
-  if(pars.includeVarStr.size()!=pars.llWeightVec.size())
+  if(!pars.includeVarStr.empty() && pars.includeVarStr.size()!=pars.llWeightVec.size())
   {
     std::cerr<<"Error: number of weights provided by -w and -va options are not equal!"<<std::endl;
     return THOT_ERROR;       
-- 
2.43.0


From 2b8b43313fb359fcce9c9d987ae89dfe9c55e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:37 +0000
Subject: [PATCH 75/81] fix: sentences without translations do not change the
 weights

---
 src/stack_dec/KbMiraLlWu.cc | 1 +
 src/stack_dec/KbMiraLlWu.h  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/stack_dec/KbMiraLlWu.cc b/src/stack_dec/KbMiraLlWu.cc
index 47d366b..daf5f7d 100644
--- a/src/stack_dec/KbMiraLlWu.cc
+++ b/src/stack_dec/KbMiraLlWu.cc
@@ -258,6 +258,7 @@ void KbMiraLlWu::MaxTranslation(const std::vector<double>& wv,
                                 std::string& maxTranslation)
 {
   double max_score=-DBL_MAX;
+  maxTranslation.clear();
   for (unsigned int n=0; n<nBest.size(); n++) {
     double score = 0;
     for (unsigned int k=0; k<wv.size(); k++)
diff --git a/src/stack_dec/KbMiraLlWu.h b/src/stack_dec/KbMiraLlWu.h
index 274c4f4..e5248a5 100644
--- a/src/stack_dec/KbMiraLlWu.h
+++ b/src/stack_dec/KbMiraLlWu.h
@@ -53,6 +53,8 @@ struct HopeFearData {
   std::vector<unsigned int> hopeQualityStats;
   double hopeScore, hopeQuality;
   double fearScore, fearQuality;
+
+  HopeFearData(): hopeScore(0), hopeQuality(0), fearScore(0), fearQuality(0) {}
 };
 
 //--------------- Classes --------------------------------------------
-- 
2.43.0


From 2b8c04b94c3e50dfefa0ed8d4a39d985e4866f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 76/81] fix: order hypotheses of the detokenizer and recaser
 (Python 3 ignores __cmp__)

---
 utils/smt_preproc/thot_smt_preproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 9faaf67..1076171 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -677,8 +677,8 @@ class Hypothesis:
         self.score=0
         self.data=BfsHypdata()
 
-    def __cmp__(self, other):
-        return cmp(other.score,self.score)
+    def __lt__(self, other):
+        return self.score>other.score
 
 ##################################################
 class PriorityQueue:
-- 
2.43.0


From 3bceac8772efb9f7539cf1c86b71992a3ca5f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 77/81] fix: keep the counts of new translation options when a
 recaser or detokenizer model is loaded

---
 utils/smt_preproc/thot_smt_preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 1076171..216fb2c 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -58,7 +58,7 @@ class TransModel:
                 self.st_counts[src_words][trg_words]=self.st_counts[src_words][trg_words]+c
                 self.s_counts[src_words]=self.s_counts[src_words]+c
             else:
-                self.st_counts[src_words][trg_words]=1
+                self.st_counts[src_words][trg_words]=c
                 self.s_counts[src_words]=self.s_counts[src_words]+c
         else:
             self.st_counts[src_words]={}
-- 
2.43.0


From de69b3b05e7d58b50f30e64eb6c50257983c03a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 78/81] fix: count each n-gram at the end of a sentence once,
 and the end of sentence among the 0-grams

---
 utils/smt_preproc/thot_smt_preproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 216fb2c..08efe5e 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -393,7 +393,7 @@ class LangModel:
     #####
     def train_word_array(self,word_array):
         # obtain counts for 0-grams
-        self.increase_ng_count("",len(word_array))
+        self.increase_ng_count("",len(word_array)+1)
 
         # create auxiliary array with special words
         word_array_aux=[]
@@ -404,7 +404,7 @@ class LangModel:
 
         # obtain counts for higher order n-grams
         for i in range(1,self.n+1):
-            for j in range(len(word_array_aux)):
+            for j in range(len(word_array_aux)-i+1):
                 # Obtain n-gram
                 ngram_array=word_array_aux[j:j+i]
                 # Convert array to string
-- 
2.43.0


From 81a4c85828d8f65f540787ab4791b769c793ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 79/81] fix: verbose training of detokenizer models with
 tokenized text

---
 utils/smt_preproc/thot_smt_preproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 08efe5e..ba4ec07 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -252,7 +252,7 @@ class TransModel:
 
             if(verbose==True):
                 print("* Training tm for sentence pair:", file=sys.stderr)
-                print(" raw:",line, file=sys.stderr)
+                print(" raw:",rline, file=sys.stderr)
                 print(" tok:", end=' ', file=sys.stderr)
                 for i in range(len(tok_array)):
                     print(tok_array[i], end=' ', file=sys.stderr)
@@ -599,7 +599,7 @@ class LangModel:
 
             if(verbose==True):
                 print("* Training lm for sentence pair:", file=sys.stderr)
-                print(" raw:",line, file=sys.stderr)
+                print(" raw:",rline, file=sys.stderr)
                 print(" tok:", end=' ', file=sys.stderr)
                 for i in range(len(tok_array)):
                     print(tok_array[i], end=' ', file=sys.stderr)
-- 
2.43.0


From ff5a8f2a4d35d956e693c1385f2969e75a36596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 80/81] fix: leave categories which no segment covers as they
 are when decategorizing

---
 utils/smt_preproc/thot_smt_preproc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index ba4ec07..bddfe69 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -1029,19 +1029,22 @@ def decategorize_word(trgpos,src_word_array,trg_word_array,srcsegms,trgcuts):
         return trg_word_array[i]
     else:
         # Scan target cuts
+        segm_found=False
         for k in range(len(trgcuts)):
             if(k==0):
                 if(trgpos+1<=trgcuts[k]):
                     trgleft=0
                     trgright=trgcuts[k]-1
+                    segm_found=True
                     break
             else:
                 if(trgpos+1>trgcuts[k-1] and trgpos+1<=trgcuts[k]):
                     trgleft=trgcuts[k-1]
                     trgright=trgcuts[k]-1
+                    segm_found=True
                     break
         # Check if trgpos'th word was assigned to one cut
-        if(k<len(trgcuts)):
+        if(segm_found):
             # Obtain source segment limits
             srcleft=srcsegms[k][0]-1
             srcright=srcsegms[k][1]-1
-- 
2.43.0


From 4147cbfb9f2476829f57163e1c11f84cf009774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:14 +0000
Subject: [PATCH 81/81] fix: do not recombine the initial hypothesis with those
 which cover the first word

---
 utils/smt_preproc/thot_smt_preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index bddfe69..b268419 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -294,7 +294,7 @@ class TransModel:
     #####
     def get_mon_hyp_state(self,hyp):
         if(len(hyp.data.coverage)==0):
-            return 0
+            return -1
         else:
             return hyp.data.coverage[len(hyp.data.coverage)-1]
 
-- 
2.43.0

