From 0c855c9a2a1f8da907bed93b66ddbffb46b1d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 01/36] fix: report errors while reading the input instead of
 treating them as its end

---
 src/lexer.h  | 5 +++++
 src/main.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..caaeba7 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -103,6 +103,11 @@ class Lexer
     {
       d_istream->read(d_buffer, INPUT_BUFFER_SIZE);
       d_bufferEnd = static_cast<size_t>(d_istream->gcount());
+      if (d_istream->bad())
+      {
+        // a failure to read is not the end of the input
+        parseError("Error reading input");
+      }
       if (d_bufferEnd == 0)
       {
         d_ch = EOF;
diff --git a/src/main.cpp b/src/main.cpp
index dff12d3..b241016 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -8,6 +8,7 @@
  ******************************************************************************/
 
 #include <unistd.h>
+#include <cstdio>
 #include <iomanip>
 #include <iostream>
 
@@ -176,6 +177,11 @@ int main( int argc, char* argv[] )
     while (p.parseNextCommand())
     {
     }
+    // a failure to read is not the end of the input
+    if (std::cin.bad() || ferror(stdin))
+    {
+      EO_FATAL() << "Error: failed to read from standard input";
+    }
   }
   else
   {
-- 
2.43.0


From 11867334b61dfe184dd75a27ef46acff3c2104dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 02/36] fix: do not confuse byte 0xff of a file with the end of
 the file

---
 src/lexer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index caaeba7..9bdcea8 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,7 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -115,7 +115,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From 011dfb4589772059519698a866c7608955b07b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 03/36] fix: fail if the output could not be written

---
 src/main.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index b241016..8a1da2a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -19,6 +19,20 @@
 
 using namespace ethos;
 
+/**
+ * Exit successfully, provided that everything we printed was written.
+ */
+static void exitSuccess()
+{
+  std::cout.flush();
+  if (!std::cout)
+  {
+    EO_FATAL() << "Error: failed to write to standard output";
+  }
+  // exit immediately, which avoids deleting all expressions which can take time
+  exit(0);
+}
+
 int main( int argc, char* argv[] )
 {
   Options opts;
@@ -76,7 +90,7 @@ int main( int argc, char* argv[] )
       out << "                 -v: verbose mode, enable all standard trace messages (requires debug build)." << std::endl;
       std::cout << out.str();
       // exit immediately
-      exit(0);
+      exitSuccess();
       return 0;
     }
     else if (arg=="--show-config")
@@ -94,7 +108,7 @@ int main( int argc, char* argv[] )
       out << std::endl;
       std::cout << out.str();
       // exit immediately
-      exit(0);
+      exitSuccess();
       return 0;
     }
     else if (arg=="-t")
@@ -219,7 +233,6 @@ int main( int argc, char* argv[] )
   {
     std::cout << stats.toString(s, opts.d_statsCompact, opts.d_statsAll);
   }
-  // exit immediately, which avoids deleting all expressions which can take time
-  exit(0);
+  exitSuccess();
   return 0;
 }
-- 
2.43.0


From b96f11f28e1bd9302d3dddcf6e2511b238983f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 04/36] fix: keep the reference assertions when a further file
 is included

---
 src/state.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..44f5de7 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -302,13 +302,18 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return false;
   }
 
+  Assert (!isReference || !d_hasReference);
+  if (isReference)
+  {
+    // the reference applies to everything that follows, in particular it is not
+    // forgotten when including further files
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   if (!markIncluded(inputPath))
   {
     return true;
   }
-  Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From 8225eb0bf9a4335fa67ed890fa43dfd71ffa8e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 05/36] fix: keep push/pop scopes properly nested with
 assumption scopes

---
 src/state.cpp | 14 ++++++++++++++
 src/state.h   |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 44f5de7..7d2c49d 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -201,6 +201,7 @@ void State::reset()
   d_symTable.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
+  d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
   if (d_plugin!=nullptr)
@@ -228,6 +229,11 @@ void State::popScope()
   {
     EO_FATAL() << "State::popScope: empty context";
   }
+  if (!d_assumptionsScopeCtx.empty()
+      && d_declsSizeCtx.size() == d_assumptionsScopeCtx.back())
+  {
+    EO_FATAL() << "State::popScope: cannot pop an assumption scope";
+  }
   size_t lastSize = d_declsSizeCtx.back();
   d_declsSizeCtx.pop_back();
   size_t i = d_decls.size();
@@ -267,6 +273,7 @@ void State::pushAssumptionScope()
   pushScope();
   // remember assumption size
   d_assumptionsSizeCtx.push_back(d_assumptions.size());
+  d_assumptionsScopeCtx.push_back(d_declsSizeCtx.size());
 }
 
 void State::popAssumptionScope()
@@ -275,6 +282,13 @@ void State::popAssumptionScope()
   size_t lastSize = d_assumptionsSizeCtx.back();
   d_assumptionsSizeCtx.pop_back();
   d_assumptions.resize(lastSize);
+  // a scope pushed since must be popped first, otherwise the symbols of the
+  // assumption scope would remain bound
+  if (d_declsSizeCtx.size() != d_assumptionsScopeCtx.back())
+  {
+    EO_FATAL() << "State::popAssumptionScope: open scope within assumption scope";
+  }
+  d_assumptionsScopeCtx.pop_back();
   // pop the parsing scope
   popScope();
 }
diff --git a/src/state.h b/src/state.h
index 7174e27..3032ee1 100644
--- a/src/state.h
+++ b/src/state.h
@@ -371,6 +371,8 @@ class State
   std::vector<Expr> d_assumptions;
   /** Context size */
   std::vector<size_t> d_assumptionsSizeCtx;
+  /** The number of open scopes when each assumption scope was pushed */
+  std::vector<size_t> d_assumptionsScopeCtx;
   //--------------------- expression info
   /** Map from expressions to constructor info */
   std::map<const ExprValue*, AppInfo> d_appData;
-- 
2.43.0


From 610b159abaf7c78a7a70b61b8773dd2bb3db78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 06/36] fix: check every assume against the reference, also in
 assumption scopes

---
 src/cmd_parser.cpp | 2 +-
 src/state.cpp      | 6 +++---
 src/state.h        | 7 +++++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..0360c3d 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -117,7 +117,7 @@ bool CmdParser::parseNextCommand()
       // bind the assumption to (pf <proven>).
       Expr pt = d_state.mkProof(proven);
       d_eparser.bind(name, pt);
-      if (!d_state.addAssumption(proven))
+      if (!d_state.addAssumption(proven, tok == Token::ASSUME_PUSH))
       {
         std::stringstream ss;
         ss << "The assumption " << name << " was not part of the referenced assertions";
diff --git a/src/state.cpp b/src/state.cpp
index 7d2c49d..d82de2e 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -468,13 +468,13 @@ void State::markDeleted(ExprValue* e)
   d_inGarbageCollection = false;
 }
 
-bool State::addAssumption(const Expr& a)
+bool State::addAssumption(const Expr& a, bool isPush)
 {
   d_assumptions.push_back(a);
   if (d_hasReference)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    // local assumptions are discharged, all others must be assertions
+    if (!isPush)
     {
       Expr aa = a;
       if (!d_referenceNf.isNull())
diff --git a/src/state.h b/src/state.h
index 3032ee1..348e6e8 100644
--- a/src/state.h
+++ b/src/state.h
@@ -73,8 +73,11 @@ class State
   bool includeFile(const std::string& s, bool isSignature);
   /** include file, possibly as a reference */
   bool includeFile(const std::string& s, bool isSignature, bool isReference, const Expr& referenceNf);
-  /** add assumption */
-  bool addAssumption(const Expr& a);
+  /**
+   * Add assumption, where isPush is true if it is local.
+   * Return false if it is not a reference assertion although required to be.
+   */
+  bool addAssumption(const Expr& a, bool isPush);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
   /** Set type rule for literal kind k to t */
-- 
2.43.0


From ced0712252237f857378e83862a4d10be7c9f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 07/36] fix: reject a proof on standard input that ends within
 an assumption scope

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 8a1da2a..4ba2eef 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -196,6 +196,10 @@ int main( int argc, char* argv[] )
     {
       EO_FATAL() << "Error: failed to read from standard input";
     }
+    if (s.getAssumptionLevel() != 0)
+    {
+      EO_FATAL() << "Error: the input did not preserve assumption scope";
+    }
   }
   else
   {
-- 
2.43.0


From da9f167a378a3a390193a6543438a62d500c2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 08/36] fix: do not remove other terms from the term database
 when deleting a term

---
 src/expr_trie.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..6bb9f91 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -45,25 +45,22 @@ public:
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      Assert (itet!=et->d_children.end());
+      if (etd == nullptr || et->d_data != nullptr || et->d_children.size() > 1)
       {
-        // etd is the candidate trie to delete from
+        // etd is the candidate trie to delete from, which is the last one that
+        // is used by another entry
         etd = et;
         itetd = itet;
       }
-      Assert (itet!=et->d_children.end());
-      if (et->d_children.size() > 1)
-      {
-        etd = nullptr;
-      }
       et = &itet->second;
     }
+    et->d_data = nullptr;
     // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    if (etd!=nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From d4836e51c834a180a7f81db0326ba14690615763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 09/36] fix: keep the hash of a term stable over the whole run

---
 src/state.cpp | 2 ++
 src/state.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index d82de2e..7c9d74c 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1632,6 +1632,8 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  // keep the term, which would otherwise have another hash when recreated
+  d_hashList.emplace_back(e);
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index 348e6e8..f2b2463 100644
--- a/src/state.h
+++ b/src/state.h
@@ -381,6 +381,8 @@ class State
   std::map<const ExprValue*, AppInfo> d_appData;
   /** Map from expressions to hash */
   std::map<const ExprValue*, size_t> d_hashMap;
+  /** The terms in the domain of the above map */
+  std::vector<Expr> d_hashList;
   /** Mapping expressions to types */
   std::map<const ExprValue*, Expr> d_typeCache;
   /** Hash counter */
-- 
2.43.0


From 49433c5a909a22d245c2c06b1f9c84f75a79e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 10/36] fix: do not delete rules and programs the statistics
 refer to

---
 src/state.cpp | 5 +++++
 src/state.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 7c9d74c..5250660 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1783,6 +1783,11 @@ bool State::markConstructorKind(const Expr& v, Attr a, const Expr& cons)
   }
   ai.d_attrCons = a;
   ai.d_attrConsTerm = acons;
+  if (a == Attr::PROOF_RULE || a == Attr::PROGRAM)
+  {
+    // rules and programs are used by the statistics, even if out of scope
+    d_ruleList.push_back(v);
+  }
   if (d_plugin!=nullptr)
   {
     d_plugin->markConstructorKind(v, a, acons);
diff --git a/src/state.h b/src/state.h
index f2b2463..f57d6a1 100644
--- a/src/state.h
+++ b/src/state.h
@@ -403,6 +403,8 @@ class State
   Filepath d_inputFile;
   /** The proof rules marked :sorry */
   std::unordered_set<const ExprValue*> d_pfrSorry;
+  /** The list of all proof rules and programs, which are never deleted */
+  std::vector<Expr> d_ruleList;
   /** Cache of files included */
   std::set<Filepath> d_includes;
   /** Have we parsed a reference file to check assumptions? */
-- 
2.43.0


From 0a09f7f107f48dd49b0ca60dfa63277996964a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 11/36] fix: forget that a term is overloaded when it is
 unbound or deleted

---
 src/state.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 5250660..10927fd 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -8,6 +8,7 @@
  ******************************************************************************/
 #include "state.h"
 
+#include <algorithm>
 #include <iostream>
 
 #include "base/check.h"
@@ -252,7 +253,15 @@ void State::popScope()
       // we always have at least 2 overloads
       Assert (ov.size()>=2);
       // was overloaded, we revert the binding
+      Expr prev = ov.back();
       ov.pop_back();
+      AppInfo* ai = getAppInfo(prev.getValue());
+      if (ai != nullptr && ai->d_overloadName == d_decls[i]
+          && std::find(ov.begin() + 1, ov.end(), prev) == ov.end())
+      {
+        // its term is no longer overloaded
+        ai->d_isOverloaded = false;
+      }
       Expr tmp = ov.back();
       its->second = tmp;
       if (ov.size()==1)
@@ -426,18 +435,14 @@ void State::markDeleted(ExprValue* e)
       }
         break;
       default:
-      {
-        if (isSymbol(k))
-        {
-          std::map<const ExprValue*, AppInfo>::const_iterator it = d_appData.find(e);
-          if (it != d_appData.end())
-          {
-            d_appData.erase(it);
-          }
-        }
-      }
       break;
     }
+    // note that any kind of term may have been marked, e.g. as overloaded
+    std::map<const ExprValue*, AppInfo>::const_iterator ita = d_appData.find(e);
+    if (ita != d_appData.end())
+    {
+      d_appData.erase(ita);
+    }
     std::map<const ExprValue*, size_t>::const_iterator ith = d_hashMap.find(e);
     if (ith != d_hashMap.end())
     {
-- 
2.43.0


From 89acdcc34e4f327a429d6570a9b606ee51855989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 12/36] fix: make reset restore the builtin symbols and forget
 everything else

---
 src/state.cpp        | 27 ++++++++++++++++++++++++++-
 src/state.h          |  2 ++
 src/type_checker.cpp |  8 ++++++++
 src/type_checker.h   |  2 ++
 4 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 10927fd..ed47efc 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -193,13 +193,38 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+
+  // remember the builtin symbols
+  d_initSymTable = d_symTable;
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
+  // only the builtin symbols remain
+  d_symTable = d_initSymTable;
+  d_ruleSymTable.clear();
+  d_overloads.clear();
+  d_overloadedDecls.clear();
+  // literals no longer have the types that were declared for them
+  d_tc.resetLiteralTypeRules();
+  // keep the types while we iterate, since deleting terms modifies the cache
+  std::vector<Expr> types;
+  for (std::map<const ExprValue*, Expr>::iterator it = d_typeCache.begin();
+       it != d_typeCache.end();)
+  {
+    Kind k = it->first->getKind();
+    if (isLiteral(k) && k != Kind::BOOLEAN)
+    {
+      types.push_back(it->second);
+      it = d_typeCache.erase(it);
+    }
+    else
+    {
+      ++it;
+    }
+  }
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_assumptionsScopeCtx.clear();
diff --git a/src/state.h b/src/state.h
index f57d6a1..a0dae1d 100644
--- a/src/state.h
+++ b/src/state.h
@@ -344,6 +344,8 @@ class State
   //--------------------- parsing state
   /** The symbol table, mapping symbols */
   std::map<std::string, Expr> d_symTable;
+  /** The symbol table initially, which has the builtin symbols */
+  std::map<std::string, Expr> d_initSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
   /** The (canonical) bound variables for binders */
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..7611d2c 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -57,6 +57,14 @@ void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
   it->second = t;
 }
 
+void TypeChecker::resetLiteralTypeRules()
+{
+  for (std::pair<const Kind, Expr>& r : d_literalTypeRules)
+  {
+    r.second = d_null;
+  }
+}
+
 Expr TypeChecker::getOrSetLiteralTypeRule(Kind k, ExprValue* self)
 {
   std::map<Kind, Expr>::iterator it = d_literalTypeRules.find(k);
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..4dab926 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,6 +45,8 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
+  /** Forget the type rules of all literal kinds */
+  void resetLiteralTypeRules();
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0


From 992591a36e5e179671a3d59d46051f9001e46920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 13/36] fix: do not read a third argument of eo::extract that
 is not there

---
 src/literal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..f5c419b 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -344,7 +344,8 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
       }
       break;
     case Kind::EVAL_EXTRACT:
-      if (args[1]->d_kind==Kind::NUMERAL && args[2]->d_kind==Kind::NUMERAL)
+      if (args.size()==3 && args[1]->d_kind==Kind::NUMERAL
+          && args[2]->d_kind==Kind::NUMERAL)
       {
         const Integer& i1 = args[1]->d_int;
         const Integer& i2 = args[2]->d_int;
-- 
2.43.0


From 33b6fd26c8b3620365d42022dbb9770da491678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 14/36] fix: print nothing for an echo command that is
 incomplete or ill-formed

---
 src/cmd_parser.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 0360c3d..fc35855 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -703,14 +703,17 @@ bool CmdParser::parseNextCommand()
     {
       // optional string literal
       tok = d_lex.peekToken();
+      std::string msg;
       if (tok == Token::STRING_LITERAL)
       {
-        std::string msg = d_eparser.parseStr(true);
-        d_state.echo(msg);
+        msg = d_eparser.parseStr(true);
+        tok = d_lex.peekToken();
       }
-      else
+      // print nothing if the command is incomplete or ill-formed, in which case
+      // we fail below
+      if (tok == Token::RPAREN)
       {
-        d_state.echo("");
+        d_state.echo(msg);
       }
     }
     break;
-- 
2.43.0


From 3c1137f2118ab25978f7bea47709b30bc66c2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 15/36] fix: name the open assumption also if a scope is open
 within it

---
 src/state.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index ed47efc..ea0a127 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -383,11 +383,15 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   Trace("state") << "...finished" << std::endl;
   if (getAssumptionLevel()!=0)
   {
-    Assert(!d_declsSizeCtx.empty() && d_declsSizeCtx.back() < d_decls.size());
+    // the first symbol bound in the innermost assumption scope, in which further
+    // scopes may be open
+    size_t scope = d_assumptionsScopeCtx.back() - 1;
+    Assert(scope < d_declsSizeCtx.size()
+           && d_declsSizeCtx[scope] < d_decls.size());
     EO_FATAL() << "Including file " << inputPath.getRawPath()
                << " did not preserve assumption scope. The most recent open "
                   "assumption was "
-               << d_decls[d_declsSizeCtx.back()] << ".";
+               << d_decls[d_declsSizeCtx[scope]] << ".";
   }
   if (d_plugin != nullptr)
   {
-- 
2.43.0


From 0543e696365eaecb32da33ff6ab9ffc291279136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 16/36] fix: recognize a file that is included by relative and
 absolute paths

---
 src/state.cpp           |  8 ++++++--
 src/util/filesystem.cpp | 28 +++++++++++++++++++++++-----
 src/util/filesystem.h   |  6 ++++++
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index ea0a127..eb73d75 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -404,12 +404,16 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
 
 bool State::markIncluded(const Filepath& s)
 {
-  std::set<Filepath>::iterator it = d_includes.find(s);
+  // the same file may be given by a relative and by an absolute path
+  Filepath path = s;
+  path.makeAbsolute();
+  path.makeCanonical();
+  std::set<Filepath>::iterator it = d_includes.find(path);
   if (it != d_includes.end())
   {
     return false;
   }
-  d_includes.insert(s);
+  d_includes.insert(path);
   return true;
 }
 
diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index b9de792..c2d9c8c 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -8,6 +8,11 @@
  ******************************************************************************/
 #include "util/filesystem.h"
 
+#ifndef USE_CPP_FILESYSTEM
+#include <limits.h>
+#include <unistd.h>
+#endif
+
 #include <fstream>
 #include <sstream>
 #include <vector>
@@ -92,6 +97,19 @@ void Filepath::append(const Filepath path)
 #endif
 }
 
+void Filepath::makeAbsolute()
+{
+#ifndef USE_CPP_FILESYSTEM
+  char cwd[PATH_MAX];
+  if (!isAbsolute() && getcwd(cwd, sizeof(cwd)) != nullptr)
+  {
+    rawPath = std::string(cwd) + "/" + rawPath;
+  }
+#else
+  rawPath = std::filesystem::absolute(rawPath);
+#endif
+}
+
 void Filepath::makeCanonical()
 {
 #ifndef USE_CPP_FILESYSTEM
@@ -142,15 +160,15 @@ void Filepath::makeCanonical()
     if (rawPath.compare(start, len, "..") == 0)
     {
       start = next + 1;
-      if (segments.empty())
-      {
-        parent_prefix_len += 1;
-      }
-      else
+      if (!segments.empty())
       {
         // Pop segment
         segments.pop_back();
       }
+      else if (!is_absolute)
+      {
+        parent_prefix_len += 1;
+      }
       continue;
     }
     segments.push_back(std::pair(start, len));
diff --git a/src/util/filesystem.h b/src/util/filesystem.h
index 6a10fdb..b5b92b1 100644
--- a/src/util/filesystem.h
+++ b/src/util/filesystem.h
@@ -64,6 +64,12 @@ class Filepath
    */
   void append(const Filepath path);
 
+  /**
+   * Makes this path absolute if it is relative to the current working
+   * directory.  Does not do any normalization.
+   */
+  void makeAbsolute();
+
   /**
    * This removes segments of the path that are superflous:
    *   - Repeated slashes: "//"
-- 
2.43.0


From 39ac4602cff020e2a0804e29b24e87baa6130a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 17/36] fix: let files be included again after a reset

---
 src/state.cpp | 5 +++++
 src/state.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index eb73d75..b0d6f6d 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -225,6 +225,9 @@ void State::reset()
       ++it;
     }
   }
+  // the files whose declarations are removed may be included again, apart from
+  // those that we are currently reading
+  d_includes = std::set<Filepath>(d_includeStack.begin(), d_includeStack.end());
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_assumptionsScopeCtx.clear();
@@ -380,6 +383,7 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   }
   while (parsedCommand);
   d_inputFile = currentPath;
+  d_includeStack.pop_back();
   Trace("state") << "...finished" << std::endl;
   if (getAssumptionLevel()!=0)
   {
@@ -414,6 +418,7 @@ bool State::markIncluded(const Filepath& s)
     return false;
   }
   d_includes.insert(path);
+  d_includeStack.push_back(path);
   return true;
 }
 
diff --git a/src/state.h b/src/state.h
index a0dae1d..04688ef 100644
--- a/src/state.h
+++ b/src/state.h
@@ -409,6 +409,8 @@ class State
   std::vector<Expr> d_ruleList;
   /** Cache of files included */
   std::set<Filepath> d_includes;
+  /** The files we are currently reading, a subset of the above */
+  std::vector<Filepath> d_includeStack;
   /** Have we parsed a reference file to check assumptions? */
   bool d_hasReference;
   /** The reference normalization function, if it exists */
-- 
2.43.0


From 14aed1542c127de25a613d8e0a7ffa8d384a83eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 18/36] fix: number terms anew after a reset

---
 src/state.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index b0d6f6d..5c70942 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -233,6 +233,11 @@ void State::reset()
   d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
+  // terms are numbered anew
+  std::vector<Expr> hashed;
+  hashed.swap(d_hashList);
+  d_hashMap.clear();
+  d_hashCounter = 0;
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
-- 
2.43.0


From 665ba2944a68374230ad488b70cd5fc14a8ac34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 19/36] fix: keep the order of elements of lists of
 left-associative operators

---
 src/type_checker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 7611d2c..d66f9fd 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1035,10 +1035,10 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   if (isLeft)
   {
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    for (auto rit = hargs.rbegin(); rit != hargs.rend(); ++rit)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
-      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
+      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *rit});
     }
   }
   else
-- 
2.43.0


From c1cc12663a6bac637bf9a9e27d418f118f1aac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 20/36] fix: do not extract more bits than a bit-vector has

---
 src/literal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index f5c419b..fbef86a 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -364,7 +364,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From 71f9eb12fd904c9570ae594baa01d602270b12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 21/36] fix: do not drop the character that follows a
 one-character keyword

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..9f97694 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -292,7 +292,7 @@ Token Lexer::computeNextToken()
       {
         parseError("Error expected symbol following :");
       }
-      parseNonEmptyCharList(CharacterClass::SYMBOL);
+      parseCharList(CharacterClass::SYMBOL);
       return Token::KEYWORD;
     default:
       if (isCharacterClass(ch, CharacterClass::DECIMAL_DIGIT))
-- 
2.43.0


From e6ab1a8edad0048476411204db7d639caf812ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 22/36] fix: reject negative and too large numerals where a
 size is expected

---
 src/expr_parser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..e6e67e4 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -8,6 +8,7 @@
  ******************************************************************************/
 #include "expr_parser.h"
 
+#include <ctype.h>
 #include <string.h>
 
 #include <iostream>
@@ -924,10 +925,15 @@ uint32_t ExprParser::tokenStrToUnsigned()
   {
     d_lex.parseError("Numeral with leading zeroes are forbidden");
   }
-  uint32_t result;
+  // extraction of an unsigned integer would accept and negate a sign, hence
+  // we require a digit, and it fails if the value is out of range
+  uint32_t result = 0;
   std::stringstream ss;
-  ss << d_lex.tokenStr();
-  ss >> result;
+  ss << token;
+  if (!isdigit(static_cast<unsigned char>(token[0])) || !(ss >> result))
+  {
+    d_lex.parseError("Expected a numeral that is not negative and below 2^32");
+  }
   return result;
 }
 
-- 
2.43.0


From 425e2aa85a7580100a03863c7e850df48ca08d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 23/36] fix: do not take a closing parenthesis for an
 s-expression

---
 src/expr_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index e6e67e4..b9a3da2 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -583,7 +583,15 @@ std::string ExprParser::parseSymbolicExpr()
     switch (tok)
     {
       case Token::LPAREN: nparen++; break;
-      case Token::RPAREN: nparen--; break;
+      case Token::RPAREN:
+      {
+        if (nparen == 0)
+        {
+          d_lex.unexpectedTokenError(tok, "Expected s-expression");
+        }
+        nparen--;
+      }
+      break;
       case Token::EOF_TOK:
       {
         d_lex.parseError("Expected s-expression");
-- 
2.43.0


From 93dcbccd9e46549957c8d87a1fb8949c5abbbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 24/36] fix: reject datatype blocks with too few definitions

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index b9a3da2..288355f 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -835,7 +835,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0


From d420e86169cc4155ae67164f3842c0d1f1916bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 25/36] fix: do not drop unprintable characters of string
 literals

---
 src/util/string.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..35b63d0 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,18 +54,9 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable character
-  if (ch > 127 || ch < 32)
-  {
-    std::stringstream serr;
-    serr << "Illegal string character: \"" << ch
-         << "\", must use escape sequence";
-    //throw cvc5::internal::Exception(serr.str());
-  }
-  else
-  {
-    str.push_back(static_cast<unsigned>(ch));
-  }
+  // Characters that are not printable are kept as well, so that distinct
+  // strings are never identified. They are printed as escape sequences.
+  str.push_back(static_cast<unsigned>(ch));
 }
 
 std::vector<unsigned> String::toInternal(const std::string& s,
-- 
2.43.0


From e40da0f1d40a698a90b5c47240428256b2590653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 26/36] fix: premise list constructors without attributes and
 no premises

---
 src/state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 5c70942..db7b707 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1572,8 +1572,8 @@ bool State::notifyStep(const std::string& name,
       {
         // the nil terminator if applied to empty list
         AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic->d_attrCons;
-        if (isListNilAttr(ck))
+        // note the constructor may have no application info at all
+        if (aic != nullptr && isListNilAttr(aic->d_attrCons))
         {
           ap = aic->d_attrConsTerm;
         }
-- 
2.43.0


From 9774dc0ed6584e47637a46f2e92321726d5d54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 27/36] fix: reject applications of builtin operators to no
 arguments

---
 src/expr_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 288355f..b770c6a 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -244,6 +244,12 @@ Expr ExprParser::parseExpr()
           d_lex.unexpectedTokenError(
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
+        // builtin operators cannot be applied to no arguments
+        if (sf.d_args.size() == 1
+            && sf.d_args[0].getKind() == Kind::BUILTIN_CONST)
+        {
+          d_lex.parseError("Expected arguments for a builtin operator.");
+        }
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0


From 8f4a508a3442c78010c4d53795d111eee83e57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 28/36] fix: do not keep the types of compound terms when
 resetting

The type of a term with literals or eo::self, e.g. (eo::len eo::self),
may depend on the types declared for literals, which a reset forgets.
---
 src/state.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index db7b707..c7b930b 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -209,13 +209,15 @@ void State::reset()
   d_overloadedDecls.clear();
   // literals no longer have the types that were declared for them
   d_tc.resetLiteralTypeRules();
-  // keep the types while we iterate, since deleting terms modifies the cache
+  // The types of all other terms may depend on those of the literals, hence we
+  // only keep those of symbols and of the builtin constants. Keep the types
+  // while we iterate, since deleting terms modifies the cache.
   std::vector<Expr> types;
   for (std::map<const ExprValue*, Expr>::iterator it = d_typeCache.begin();
        it != d_typeCache.end();)
   {
     Kind k = it->first->getKind();
-    if (isLiteral(k) && k != Kind::BOOLEAN)
+    if (it->first->getNumChildren() > 0 || (isLiteral(k) && k != Kind::BOOLEAN))
     {
       types.push_back(it->second);
       it = d_typeCache.erase(it);
-- 
2.43.0


From 9f3594325c9fe205cad6f5cd5cfac0fe55dfbb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 29/36] fix: forget that terms are overloaded when resetting

---
 src/state.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index c7b930b..4db16e2 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -207,6 +207,11 @@ void State::reset()
   d_ruleSymTable.clear();
   d_overloads.clear();
   d_overloadedDecls.clear();
+  // terms that remain are no longer overloaded
+  for (std::pair<const ExprValue* const, AppInfo>& ai : d_appData)
+  {
+    ai.second.d_isOverloaded = false;
+  }
   // literals no longer have the types that were declared for them
   d_tc.resetLiteralTypeRules();
   // The types of all other terms may depend on those of the literals, hence we
-- 
2.43.0


From f641c626bda10b6f79f5a9e7f4dae09fef2cfebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 30/36] fix: print the leading zeroes of hexadecimal literals

They distinguish #x0f from #xf, also for eo::to_str.
---
 src/util/bitvector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..6306f32 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -36,10 +36,13 @@ Integer BitVector::toInteger() const { return d_value; }
 std::string BitVector::toString(unsigned int base) const
 {
   std::string str = d_value.toString(base);
-  if (base == 2 && d_size > str.size())
+  // the number of digits, where leading zeroes are printed
+  unsigned int ndigits =
+      base == 2 ? d_size : (base == 16 ? d_size / 4 + (d_size % 4 != 0) : 0);
+  if (ndigits > str.size())
   {
     std::string zeroes;
-    for (unsigned int i = 0; i < d_size - str.size(); ++i)
+    for (unsigned int i = 0; i < ndigits - str.size(); ++i)
     {
       zeroes.append("0");
     }
-- 
2.43.0


From 575c0c82a80e355da1a8f2ee5436462b96718c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 31/36] fix: print the quotation marks of strings so that they
 can be read back

---
 src/expr.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9f32d9b..2f2c4d2 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -238,6 +238,20 @@ std::string quoteSymbol(const std::string& s)
   return "|" + tmp + "|";
 }
 
+/**
+ * SMT-LIB 2 quoting for string literals
+ */
+std::string quoteString(const std::string& s)
+{
+  std::string ret = "\"";
+  for (char c : s)
+  {
+    // a quotation mark is written twice
+    ret.append(c == '"' ? 2 : 1, c);
+  }
+  return ret + "\"";
+}
+
 std::vector<Expr> Expr::getPrintChildren(const ExprValue* e)
 {
   std::vector<Expr> ret;
@@ -347,7 +361,7 @@ void Expr::printDebugInternal(const Expr& e,
                 os << "#b" << l->toString();
               }
               break;
-            case Kind::STRING:os << "\"" << l->toString() << "\"";break;
+            case Kind::STRING: os << quoteString(l->toString()); break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
               // use attribute
@@ -378,7 +392,7 @@ void Expr::printDebugInternal(const Expr& e,
         Expr tt(ExprValue::d_state->lookupType(cur.first));
         const Literal* l = cur.first->asLiteral();
         Assert(l != nullptr);
-        os << "(eo::var \"" << l->toString() << "\" ";
+        os << "(eo::var " << quoteString(l->toString()) << " ";
         visit.back().second++;
         visit.emplace_back(tt.getValue(), 0);
       }
-- 
2.43.0


From 419adae69782394971a9df294a78c9baab3845e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 32/36] fix: quote symbols that look like negative numerals
 when printing

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 2f2c4d2..0781d8f 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -217,7 +217,9 @@ std::string quoteSymbol(const std::string& s)
   if (s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
                           "0123456789~!@$%^&*_-+=<>.?/")
           == std::string::npos
-      && (s[0] < '0' || s[0] > '9'))
+      && (s[0] < '0' || s[0] > '9')
+      // negative literals, e.g. -1
+      && (s[0] != '-' || s.length() == 1 || s[1] < '0' || s[1] > '9'))
   {
     return s;
   }
-- 
2.43.0


From e0f7356d0a9df2bb02711ceaa929c44b67a91643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 33/36] fix: print applications of n-ary functions with _

They are desugared already, (and p) would be read as (and p true).
---
 src/expr.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 0781d8f..04ed7ff 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -415,6 +415,17 @@ void Expr::printDebugInternal(const Expr& e,
         {
           os << kindToTerm(k) << " ";
         }
+        else
+        {
+          // applications of n-ary functions and binders are already
+          // desugared, hence they must use "_"
+          Attr attr = ExprValue::d_state->getConstructorKind((*cur.first)[0]);
+          if (isNAryAttr(attr) || attr == Attr::BINDER
+              || attr == Attr::LET_BINDER)
+          {
+            os << kindToTerm(k) << " ";
+          }
+        }
         visit.back().second++;
         visit.emplace_back((*cur.first)[0], 0);
       }
-- 
2.43.0


From b0d065a1dedfe52568ff4b40d27f2652f6975d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 34/36] Hook: a plugin of the simulation harness
 (ETHOS_SIM_PLUGIN, off by default)

---
 src/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 4ba2eef..6a1be81 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -19,6 +19,11 @@
 
 using namespace ethos;
 
+#ifdef ETHOS_SIM_PLUGIN
+/** Provides the plugin (or null), defined by the harness linked with this. */
+Plugin* ethosSimPlugin(State& s);
+#endif
+
 /**
  * Exit successfully, provided that everything we printed was written.
  */
@@ -172,6 +177,9 @@ int main( int argc, char* argv[] )
     }
   }
   // NOTE: initialization of plugin goes here
+#ifdef ETHOS_SIM_PLUGIN
+  plugin = ethosSimPlugin(s);
+#endif
   if (plugin!=nullptr)
   {
     s.setPlugin(plugin);
-- 
2.43.0


From 97c400b14e692aad6f3dfad6fa410e6949acf502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 35/36] fix: do not evaluate applications of builtin operators
 of the wrong arity

---
 src/type_checker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index d66f9fd..b373af8 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -758,7 +758,8 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
           }
             break;
           default:
-            if (isLiteralOp(ck))
+            // if it is malformed, it does not evaluate
+            if (isLiteralOp(ck) && checkArity(ck, cchildren.size()))
             {
               evaluated = evaluateLiteralOpInternal(ck, cchildren);
               Trace("type_checker_debug")
-- 
2.43.0


From 0f84da734438b764e03a7a5fb30ca921f0ef7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 36/36] fix: keep the results of programs that a plugin
 evaluates

---
 src/type_checker.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index b373af8..a99021a 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -705,7 +705,14 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                   // if the evaluation can be shortcircuited, don't need to
                   // push a context
                   // store the base evaluation (if applicable)
-                  et->d_data = evaluated.getValue();
+                  ExprValue* ev = evaluated.getValue();
+                  // ensure it is ref counted, it may be new if a plugin
+                  // computed it
+                  if (ev != nullptr && keep.insert(ev).second)
+                  {
+                    keepList.emplace_back(ev);
+                  }
+                  et->d_data = ev;
                 }
                 else
                 {
-- 
2.43.0

