From 81a7e19cf35cef8bb35ba981c3f28c76afe25ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 01/33] fix: swapped inference pass hands each premise its own
 truth value

infBinary tries both premise orders, but the second call swapped the terms and
punctuations without swapping the truth values: abduction and induction took
frequency/weight from the wrong premise, and a question as second premise
unwrapped the missing truth value.
---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..38fe696 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -741,7 +741,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From 3b9ce571a40486d7744e9f8060dd0a6e2f84ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:25 +0000
Subject: [PATCH 02/33] fix: product-to-image rewrite requires a binary product

(X * Y * Z) --> rel lost Z in the conclusion and a unary product indexed out of
bounds; the second image rule already has this guard.
---
 src/NarWorkingCycle.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 38fe696..c44c06c 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -138,11 +138,13 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
                 Term::Prod(arr) => {
-                    let prod0 = &arr[0];
-                    let prod1 = &arr[1];
+                    if arr.len() == 2 {
+                        let prod0 = &arr[0];
+                        let prod1 = &arr[1];
 
-                    let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
-                    return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                        let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
+                        return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                    }
                 },
                 _ => {}
             }
-- 
2.43.0


From 2fad5435fea530430c4d6461b9cb431aabe32e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:27 +0000
Subject: [PATCH 03/33] fix: image-to-product rewrite only applies to
 judgements

A question has no truth value: the rule unwrapped it and would have turned a
question into a judgement.
---
 src/NarWorkingCycle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index c44c06c..17b6581 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -188,7 +188,7 @@ pub fn infStructProd1(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
 /// |-
 /// (X * Y) --> rel.?
 pub fn infStructImg0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option<(Term, Tv, EnumPunctation, f64)> {
-    if punct != EnumPunctation::JUGEMENT && punct != EnumPunctation::QUESTION {
+    if punct != EnumPunctation::JUGEMENT { // questions carry no truth value to pass on
         return None;
     }
 
@@ -216,7 +216,7 @@ pub fn infStructImg0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option
 /// |-
 /// (X * Y) --> rel.?
 pub fn infStructImg1(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option<(Term, Tv, EnumPunctation, f64)> {
-    if punct != EnumPunctation::JUGEMENT && punct != EnumPunctation::QUESTION {
+    if punct != EnumPunctation::JUGEMENT { // questions carry no truth value to pass on
         return None;
     }
 
-- 
2.43.0


From fb775f6193a9d3df3517b80e1172967a08f52934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:50 +0000
Subject: [PATCH 04/33] fix: eternal questions are registered as open questions
 instead of being rejected

---
 src/Nar.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..7d20fcf 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -96,8 +96,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
 
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
-            // quesion was already added
-            //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
             // add to temporal knowledge
@@ -114,7 +113,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         if punct == EnumPunctation::GOAL {
             println!("ERR : eternal goals are not supported!");
         }
-        else if punct == EnumPunctation::JUGEMENT {
+        else if punct == EnumPunctation::JUGEMENT || punct == EnumPunctation::QUESTION {
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else {
-- 
2.43.0


From 19fbf53bb1af2b7ebe1b4b62660781f3b9d6e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:50 +0000
Subject: [PATCH 05/33] fix: occurrence counting and variable introduction
 cover the relation of an image

---
 src/NarInfProcedural.rs | 2 +-
 src/Term.rs             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..f990c83 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -180,7 +180,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
                 for i in elements {
                     arr.push(Box::new(helper(i, repl, with)));
                 }
-                Term::Img(Box::new((**rel).clone()),*idx,arr)
+                Term::Img(Box::new(helper(rel, repl, with)),*idx,arr)
             },
             Term::IntInt(elements) => {
                 let mut arr = vec![];
diff --git a/src/Term.rs b/src/Term.rs
index 61b0cf1..69e1f51 100644
--- a/src/Term.rs
+++ b/src/Term.rs
@@ -600,8 +600,8 @@ pub fn count_occurence_subterms(t: &Term, searched: &Term) -> i64 {
             }
             n
         },
-        Term::Img(rela,idxa,elementsa) => {
-            let mut n = 0;
+        Term::Img(rela,_idxa,elementsa) => {
+            let mut n = count_occurence_subterms(rela, searched);
             for idx in 0..elementsa.len() {
                 n += count_occurence_subterms(&elementsa[idx], searched);
             }
-- 
2.43.0


From 923a8ce14b131c6c657402b22d51db2e1a214018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 06/33] fix: alphabet of random variable names has as many
 characters as indices are drawn

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index f990c83..1e8eb36 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "0123456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From e4d7e4469c5bc84c8b9460cf658d81421b85d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:18 +0000
Subject: [PATCH 07/33] fix: a sentence that is already a task does not keep
 the revision conclusion from becoming one

---
 src/NarWorkingCycle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 17b6581..8f3abd2 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1553,7 +1553,7 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
         NarMem::storeInConcepts(&mut shared.read().mem.write(), sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
     }
 
-    for iToAddToTasks in &toAddToTasks {
+    'nextToAdd: for iToAddToTasks in &toAddToTasks {
         match iToAddToTasks.punct {
             EnumPunctation::JUGEMENT => {
                 let task = {
@@ -1562,7 +1562,7 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
                         for ijt in &sharedGuard.judgementTasks { // ijt:iteration-judgement-task
                             let ijt2 = ijt.read();
                             if checkEqTerm(&iToAddToTasks.term, &ijt2.sentence.term) && checkSame(&iToAddToTasks.stamp, &ijt2.sentence.stamp) {
-                                return; // don't add if it exists already! because we would skew the fairness if we would add it
+                                continue 'nextToAdd; // don't add if it exists already! because we would skew the fairness if we would add it
                             }
                         }
                     }
-- 
2.43.0


From 8ad388b0d96ead9550ebbf030721ebe54a155481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:04 +0000
Subject: [PATCH 08/33] fix: only sequences which end with an op are candidates
 of decision making

---
 src/NarGoalSystem.rs | 3 ++-
 src/NarProc.rs       | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..d63607e 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -651,12 +651,13 @@ fn retSubSeqAsSeqOrTerm(subseq:&[Box<Term>])->Term {
 /// select highest ranked goal for state
 /// returns entity and unified result
 pub fn selHighestExpGoalByState(goalSystem: &GoalSystem, state:&Term) -> (f64, Option<(Arc<RwLock<Entry>>, Term)>) {
+    use crate::TermUtils::decodeOp;
     let mut res:(f64, Option<(Arc<RwLock<Entry>>, Term)>) = (0.0, None);
 
     for iv in &retEntries(goalSystem) {
         match &(*(iv.read().sentence).term) {
             
-            Term::Seq(seq) if seq.len() >= 1 => {
+            Term::Seq(seq) if seq.len() >= 1 && decodeOp(&seq[seq.len()-1]).is_some() => { // must end with a op, else there is nothing to execute
                 // try to unify first part of sequence with observed state
                 // we can only consider if it matches!
                 let asgnmts:Option<Vec<NarUnify::Asgnment>> = NarUnify::unify(&retSubSeqAsSeqOrTerm(&seq[..seq.len()-1]), &state);
diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..10aca1c 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -670,6 +670,10 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                 let nonunifiedSeq: Term = (*iQueuedAnswer.entry.read().sentence.term).clone();
                 let unifiedSeq: Term = nonunifiedSeq.clone(); // HACK< we just take the nonunified term > TODO< unify! >
 
+                if !is_seqAndLastOp(&unifiedSeq) {
+                    continue; // last must be op, else there is nothing to execute
+                }
+
                 match bestEntry2 { // is there best entry?
                     Some(ref bestEntry4) => {
                         if exp > bestEntry4.exp {
@@ -748,7 +752,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                             }
 
                                             match unifiedSeqOpt {
-                                                Some(unifiedSeq) => { // must always have a value!
+                                                Some(unifiedSeq) if is_seqAndLastOp(&unifiedSeq) => { // last must be op, else there is nothing to execute
                                                     let firstExecEvidence = Arc::clone(&execEvidence[0]);
                                                     let exp: f64 = Tv::calcExp(&carriedGoalTv);
 
@@ -774,7 +778,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                                         }
                                                     }
                                                 },
-                                                None => {}
+                                                _ => {}
                                             }
 
                                             break; // break because we found a goal which was hit
-- 
2.43.0


From 307c7fdf37a0214ffe454bdf3d14aa218a21050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 09/33] fix: condition of a predictive implication whose
 subject is a single event is that event

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 10aca1c..c9b9420 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -1119,7 +1119,7 @@ pub fn retSeqCond(term:&Term) -> Term {
                 Term::Seq(seq) => {
                     *seq[0].clone()
                 },
-                _ => {panic!("expected seq!");}
+                _ => (**subj).clone() // a single event is the condition itself
             }
         },
         _ => {panic!("expected pred impl!");}
-- 
2.43.0


From 2fa52d4b57cd870e9d41ca1afe8a5dec4be48f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:08 +0000
Subject: [PATCH 10/33] fix: storage of observed evidence does not panic when
 it meets a rule without an interval

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index c9b9420..5bab4f8 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -403,7 +403,7 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt.map_or(false, |expDt| expDt >= evidenceSentence.expDt.unwrap()) && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
-- 
2.43.0


From 19cf89e71438f1b6f58436de604ee3eab17d03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:10 +0000
Subject: [PATCH 11/33] fix: active goals are counted once when goals are
 forgotten

---
 src/NarGoalSystem.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index d63607e..3e0c38b 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -438,10 +438,6 @@ fn checkSetContains(set: &Vec< Arc<RwLock<Entry>> >, s: &Sentence) -> bool {
 /// /param t is the procedural reasoner NAR time
 pub fn limitMemory(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, t: i64) {
     let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries
-    
-    for iv in &goalSystem.read().activeSet.set {
-        arr.push(Arc::clone(&iv));
-    }
 
     dbg(&format!("nEntries={}", arr.len()));
 
-- 
2.43.0


From b21b36333a875c85f6722bc39dc14e06c0eb69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:42 +0000
Subject: [PATCH 12/33] fix: goals added to an existing group are indexed, so
 that the same goal isn't stored again

---
 src/NarGoalSystem.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 3e0c38b..fd4f9b2 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -266,6 +266,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         // * so we have to find the group with the same term if the group exists and add it there or
         // * add it as a new group
         
+        let mut foundGroup = false;
         { // try to search for group by e.sentence.term
             for iGroup in &mut chosenBatch.groups { // iterate over groups by term
                 if checkEqTerm(&iGroup.term, &e.read().sentence.term) { // found entry?
@@ -273,18 +274,21 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     e.write().accDesirability = newAcc; // update
     
                     iGroup.entries.push(Arc::clone(&e)); // add entry
-                    return;
+                    foundGroup = true;
+                    break;
                 }
             }
         }
     
-        { // case to add it as a new group
+        if !foundGroup { // case to add it as a new group
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
                 }
             );
+        }
 
+        { // add it to the index by term, is used to detect goals which are already stored
             match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
                 Some(arr) => {
                     
@@ -292,7 +296,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     for iItem in arr.read().iter() {
                         let borrowedItem = iItem.read();
                         if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
+                           NarStamp::checkSame(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
                             exists = true;
                             break; // OPT
                         }
-- 
2.43.0


From 004af513c5e350d0dee58d153d8730caaa5f3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:44 +0000
Subject: [PATCH 13/33] fix: sampling inside a group of goals is relative to
 the group

---
 src/NarGoalSystem.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index fd4f9b2..ed0a84a 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -281,6 +281,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         }
     
         if !foundGroup { // case to add it as a new group
+            e.write().accDesirability = 0.0; // is first entry of the group, can be stale when the goal is added again
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
@@ -557,7 +558,7 @@ pub fn sample(goalSystem: &GoalSystem, rng: &mut rand::rngs::ThreadRng) -> Optio
         if des2+sum > selPriority { // is the range of the selection inside this "group"?
 
             use crate::BinSearch::binSearch;
-            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority);
+            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority-sum); // accumulated values are relative to the group
             let selEntry2 = selEntry3.read();
             selEntry = Some((Arc::clone(&selEntry2.sentence), selEntry2.depth));
             break;
-- 
2.43.0


From f41eff1a7a8a0219a241103433c43d0ade6e1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:02 +0000
Subject: [PATCH 14/33] fix: chaos environment hands the declarative memory to
 the procedural reasoner

---
 src/ProcChaosEntry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProcChaosEntry.rs b/src/ProcChaosEntry.rs
index 218c733..5ae621e 100644
--- a/src/ProcChaosEntry.rs
+++ b/src/ProcChaosEntry.rs
@@ -39,7 +39,7 @@ pub fn procChaosEntry() {
 
         nar.procNar.trace.event_happened( Rc::new(NarProc::SimpleSentence {name:Term::Name(format!("{}",t)),evi:nar.procNar.t,occT:nar.procNar.t}) );
 
-        NarProc::narStep1(&mut nar.procNar, &None);
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
         
         
         
-- 
2.43.0


From cbc9c3da96e0fadea61eb16706a583f3d462885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:08 +0000
Subject: [PATCH 15/33] fix: commands !spA and !spB are not shadowed by !sp

---
 src/NarInputFacade.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..ff39616 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -29,6 +29,12 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         // ignore
     }
     
+    else if input == "!spA" { // step procedural A
+        NarProc::narStep0(&mut nar.procNar);
+    }
+    else if input == "!spB" { // step procedural B
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
+    }
     else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
@@ -39,12 +45,6 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input == "!spA" { // step procedural A
-        NarProc::narStep0(&mut nar.procNar);
-    }
-    else if input == "!spB" { // step procedural B
-        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
-    }
     else if input.len() >= 2 && &input[..2] == "!s" {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-- 
2.43.0


From 2f78c64d6f0668622b5232734a527b791d26b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 16/33] fix: commands are recognized without slicing the input
 inside of a multibyte character

---
 src/NarInputFacade.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index ff39616..aa033b1 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,7 +25,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
@@ -35,7 +35,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!spB" { // step procedural B
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -45,7 +45,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
             // TODO< check if it was parsed fine! >
@@ -58,7 +58,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +95,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From c25a463bdd737c3f5c13e716de734214263c13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:11 +0000
Subject: [PATCH 17/33] fix: a malformed number of cycles is reported instead
 of terminating the process

---
 src/NarInputFacade.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index aa033b1..1a7505d 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -48,8 +48,13 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            match input[2..].parse::<i64>() {
+                Ok(n) => {nCycles = n;},
+                Err(_) => {
+                    println!("ERR - couldn't parse number of cycles!");
+                    return retInfo;
+                }
+            }
         }
         for _i in 0..nCycles {
             cycle(nar);
-- 
2.43.0


From 20302095ce685b141e53d14345f9e12adee652c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:12 +0000
Subject: [PATCH 18/33] fix: interactive session ends at the end of the input

---
 src/NarInteractive.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index 630dae7..292dc98 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -12,6 +12,7 @@ pub fn runInteractive(nar:&mut Nar) {
     loop {
         let mut input2 = String::new();
         match io::stdin().read_line(&mut input2) {
+            Ok(0) => {break;}, // end of input
             Ok(_) => {
                 let mut input = input2.clone();
                 trimNewline(&mut input);
-- 
2.43.0


From ecb97a94268a1d399a1d71d5e3fbe29a4709b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:23 +0000
Subject: [PATCH 19/33] fix: parser reports malformed truth values and handles
 multibyte characters

---
 src/NarseseParser.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..f050cf4 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,23 +22,18 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
-    for revIdx in 1..narsese.len() { // scan for '{'
-      let idx = narsese.len() - revIdx; // compute index from back
+  if narsese.ends_with('}') {
+    if let Some(idx) = narsese.rfind('{') { // scan for '{' from back
+      let splitted:Vec<&str> = narsese[idx+1..narsese.len()-1].split(" ").collect();
       
-      if narsese.chars().nth(idx).unwrap() == '{' {
-        let tvStr = &narsese[idx+1..narsese.len()-1];
-        let splitted:Vec<&str> = tvStr.split(" ").collect();
-        
-        if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
-          *narsese = narsese[..idx].to_string(); // cut away
-          *tv = Tv{f:f,c:c};
-          return;
+      if splitted.len() == 2 { // must have two values
+        match (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
+          (Ok(f), Ok(c)) => {
+            *narsese = narsese[..idx].to_string(); // cut away
+            *tv = Tv{f:f,c:c};
+          },
+          _ => {} // isn't a TV, is left to the parser
         }
-        return;
       }
     }
   }
@@ -73,8 +68,8 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let punctationChar = narsese2.chars().last().unwrap();
+  let narseseInner = narsese2[..narsese2.len()-punctationChar.len_utf8()].to_string();
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
-- 
2.43.0


From a0f7ef7f959ff34349a5bb7cc1d08fa182e17455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:54 +0000
Subject: [PATCH 20/33] fix: truth values outside of the valid range are
 rejected

---
 src/NarseseParser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f050cf4..70276aa 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -28,7 +28,7 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
       
       if splitted.len() == 2 { // must have two values
         match (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
-          (Ok(f), Ok(c)) => {
+          (Ok(f), Ok(c)) if f >= 0.0 && f <= 1.0 && c >= 0.0 && c < 1.0 => { // must be a valid TV
             *narsese = narsese[..idx].to_string(); // cut away
             *tv = Tv{f:f,c:c};
           },
-- 
2.43.0


From 260e9b813fa5d8fb0983dff190e6c9bf7ffcee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:06 +0000
Subject: [PATCH 21/33] fix: narsese with an unparsed remainder is rejected

---
 src/NarseseParser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 70276aa..cd500c0 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -85,10 +85,10 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
   let parsed:IResult<&str, Term> = parseEntry(&narseseInner);
 
   match parsed {
-    Ok((_str2, term)) => {
+    Ok((rest, term)) if rest.trim().is_empty() => { // must be parsed completly
       Some((term, tv, punctation, isEvent))
     },
-    Err(_) => {
+    _ => {
       None
     }
   }
-- 
2.43.0


From a26c7a98a1b6b525c67f6f09ad891443fd3f6d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:33 +0000
Subject: [PATCH 22/33] fix: listing of tasks does not take the lock of the
 shared state recursively

---
 src/NarWorkingCycle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 8f3abd2..34d943d 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1983,7 +1983,8 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
     
     // debug credit of tasks
     {
-        for iTask in &mem.shared.read().judgementTasks {
+        let sharedGuard = mem.shared.read(); // must be read only once, else it can deadlock when a worker waits to write
+        for iTask in &sharedGuard.judgementTasks {
             let taskSentenceAsStr = convSentenceTermPunctToStr(&iTask.read().sentence, true);
             
             let mut taskAsStr = taskSentenceAsStr.clone();
@@ -1993,7 +1994,7 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
                 taskAsStr = format!("{} {}", taskAsStr, NarStamp::convToStr(&iTask.read().sentence.stamp));
             }
 
-            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), mem.shared.read().cycleCounter.load(Ordering::Relaxed))));
+            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), sharedGuard.cycleCounter.load(Ordering::Relaxed))));
         }
     }
 
-- 
2.43.0


From 0e99a04451826e07795c57215db13ff0efb0fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:35 +0000
Subject: [PATCH 23/33] fix: server sends a broadcasted message only once to a
 client

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index f15ebd2..c31fcdf 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -58,7 +58,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
             let data = global.lock().unwrap(); // unwrap to panic if it can't unlock
             for iItem in &data.arr { // iterate over global items and send to writer
                 if iItem.0 >= myIdCounter { // is it a message which this tread didn't yet observe?
-                    myIdCounter = iItem.0; // update counter so the message is next time ignored
+                    myIdCounter = iItem.0+1; // update counter so the message is next time ignored
                     let bcastedMsg:String = iItem.1.clone(); // copy broadcasted string to local variable
                     toSend.push(bcastedMsg);
                 }
-- 
2.43.0


From 653d18d3110b911ae67a42a9d5f2524a9a1c6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:37 +0000
Subject: [PATCH 24/33] fix: derivative of division

---
 src/ad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index e9cfdf6..61363ac 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -20,7 +20,7 @@ pub fn mul(a: &Ad,b: &Ad) -> Ad {
 }
 
 pub fn div(a: &Ad,b: &Ad) -> Ad {
-    let z=a.r*b.d+a.d*b.r;
+    let z=a.d*b.r-a.r*b.d;
     Ad{r:a.r/b.r,d:z/(b.r*b.r)}
 }
 
-- 
2.43.0


From 8ef7511b6da0a3bbd880a8dc484553613032d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:57 +0000
Subject: [PATCH 25/33] fix: op ^nlpRel0 only rewrites binary products

---
 src/OpLib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpLib.rs b/src/OpLib.rs
index cbda5f8..545349e 100644
--- a/src/OpLib.rs
+++ b/src/OpLib.rs
@@ -104,7 +104,7 @@ impl NarProc::Op for Op__nlp_rel_0 {
         let rewrittenRel:Term = match rel.clone() {
             Term::Stmt(Copula::INH, subj, pred) => {
                 match *subj {
-                    Term::Prod(arr) => {
+                    Term::Prod(arr) if arr.len() == 2 => {
                         let right:Term = (*arr[1]).clone();
                         let rewrittenRight:Term = match right {
                             Term::Seq(arr) if arr.len() == 3 && checkEqTerm(&arr[1], &Term::Name("and".to_string())) => {
-- 
2.43.0


From 021ded96ef73ba419f93b5059aa21b3cdfbb1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:58 +0000
Subject: [PATCH 26/33] fix: backlog of broadcasted messages is also limited
 for answers

---
 src/NarServer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index c31fcdf..6fffd4e 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -154,6 +154,12 @@ impl QHandler for QHandlerImpl {
         let idCounter = data.idCounter;
         data.arr.push((idCounter, msg.clone()));
         data.idCounter+=1;
+
+        // limit size of data
+        let dataMaxLength = 50;
+        if data.arr.len() > dataMaxLength {
+            data.arr = data.arr[data.arr.len()-dataMaxLength..].to_vec();
+        }
     }
 }
 
-- 
2.43.0


From 87f1c3475bab1f28139bbe84cec52c64541054bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 27/33] fix: broadcasted messages are written completely

write() of a message which is longer than the buffer of the writer is handed to the socket, which may take only a part of it; the rest of the message was dropped.
---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 6fffd4e..48f5ca4 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -67,7 +67,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
         
         for iLine in &toSend {
             // send broadcasted to stream
-            writer.write((iLine.to_owned()+"\n").as_bytes()).await;
+            writer.write_all((iLine.to_owned()+"\n").as_bytes()).await;
             writer.flush().await;
         }
 
-- 
2.43.0


From e5021f7a8306c98e5e40b81b3984568ebcef3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 28/33] fix: reading of a file ends if it can't be read

lines() of something which can't be read (a directory for example) gives the same error forever, so the loop never ended.
---
 src/NarUtilReadn.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/NarUtilReadn.rs b/src/NarUtilReadn.rs
index 987926c..d8071de 100644
--- a/src/NarUtilReadn.rs
+++ b/src/NarUtilReadn.rs
@@ -13,11 +13,15 @@ pub fn readNarseseFile(nar: &mut Nar, path:&String, quit:&mut bool) {
     if let Ok(lines) = read_lines(path) {
         // Consumes the iterator, returns an (Optional) String
         for line in lines {
-            if let Ok(line2) = line {
-                NarInputFacade::input(nar, &line2, quit); // pass line into facade
-                if *quit {
-                    break; // break reading of file because we are exiting anyways
-                }
+            match line {
+                Ok(line2) => {
+                    NarInputFacade::input(nar, &line2, quit); // pass line into facade
+                    if *quit {
+                        break; // break reading of file because we are exiting anyways
+                    }
+                },
+                Err(ref error) if error.kind() == io::ErrorKind::InvalidData => {}, // line isn't valid text, ignore
+                Err(_) => {break;}, // can't be read, all other attempts would fail too
             }
         }
     }
-- 
2.43.0


From 218a7113baa3e4b057ce3361000fbbaee68ba988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:21 +0000
Subject: [PATCH 29/33] fix: interactive session ends if the input can't be
 read

A error which isn't about a single line comes back forever, the session printed errors without end.
---
 src/NarInteractive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index 292dc98..8dcc6d4 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -38,7 +38,12 @@ pub fn runInteractive(nar:&mut Nar) {
                     break;
                 }
             }
-            Err(error) => println!("error: {}", error),
+            Err(error) => {
+                println!("error: {}", error);
+                if error.kind() != io::ErrorKind::InvalidData { // all other attempts to read would fail too
+                    break;
+                }
+            },
         }
     }
 }
-- 
2.43.0


From b01b8b7c751ec207417967e22819e47edb1cf61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 30/33] fix: predictive rules entered by the user keep their
 truth value

---
 src/Nar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 7d20fcf..55c0049 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -100,8 +100,10 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         }
         else if punct == EnumPunctation::JUGEMENT {
             // add to temporal knowledge
-            sentence.evi = Some(Evidence::CNT{pos:10,cnt:10}); // we need to transcribe TV
-                                                            // TODO< transcribe TV in a better way, we need to approximate freq and conf! >
+            // we need to transcribe TV, counted evidence has freq = pos/cnt and conf = cnt/(cnt+1)
+            let cnt: i64 = c2w(tv.c).round().max(1.0).min(1000000.0) as i64;
+            let pos: i64 = (tv.f*(cnt as f64)).round() as i64;
+            sentence.evi = Some(Evidence::CNT{pos:pos,cnt:cnt});
             
             NarProc::mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &sentence, nar.cfg__nConceptBeliefs, nar.procNar.t, &mut nar.procNar.rng);
         }
-- 
2.43.0


From bc882b3f495a72743e37a656e73f8fc094137fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:01 +0000
Subject: [PATCH 31/33] fix: circle of radius r was drawn with the radius
 sqrt(r)

---
 src/Map2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index aba5fcb..00b03fb 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -53,7 +53,7 @@ pub fn map2dDrawBox<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,w:i32,h:i32,v:T) {
 pub fn map2dDrawCircle<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,r:i32,v:T) {
     for iy in -(r+1)..r+1 {
         for ix in -(r+1)..r+1 {
-            if ix*ix+iy*iy <= r {
+            if ix*ix+iy*iy <= r*r {
                 writeAt(m,cy+iy,cx+ix, v);
             }
         }
-- 
2.43.0


From dc89d9ab7ceef6b7bf46b67dc6f57ba2b5d14758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:01 +0000
Subject: [PATCH 32/33] fix: a line was drawn only next to its start, the
 projection used the direction which isn't normalised

---
 src/Map2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index 00b03fb..5ae9d40 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -90,8 +90,8 @@ pub fn drawLine<T:Copy>(m:&mut Map2d<T>, ax:i32,ay:i32,bx:i32,by:i32,v:T) {
             }
 
             // projected
-            let px = (ax as f64) + dotRes*fdiffx;
-            let py = (ay as f64) + dotRes*fdiffy;
+            let px = (ax as f64) + dotRes*nfdiffx;
+            let py = (ay as f64) + dotRes*nfdiffy;
 
             let diff2x = (ix as f64) - px;
             let diff2y = (iy as f64) - py;
-- 
2.43.0


From 4f44e071c72bb4f6efde9612342d1dcd26748bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:01 +0000
Subject: [PATCH 33/33] fix: convolution left out the last row and column of a
 kernel of odd size

---
 src/ModVisionC.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModVisionC.rs b/src/ModVisionC.rs
index f7f9dfc..045bf16 100644
--- a/src/ModVisionC.rs
+++ b/src/ModVisionC.rs
@@ -9,8 +9,8 @@ pub fn convWithoutBorder(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
 
             let mut acc:f64 = 0.0;
 
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -kernel.h/2..kernel.h-kernel.h/2 {
+                for idx in -kernel.w/2..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
@@ -30,8 +30,8 @@ pub fn convo(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
     for iy in 0..v.h {
         for ix in 0..v.w {
             let mut acc:f64 = 0.0;
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -kernel.h/2..kernel.h-kernel.h/2 {
+                for idx in -kernel.w/2..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
-- 
2.43.0

