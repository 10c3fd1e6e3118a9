From 0c28484edc2af0b28d23dfbe92149ddff4361718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:07 +0000
Subject: [PATCH 01/25] fix: rewrite negative integer constants with their sign

---
 .../include/libdredd/mutate_ast_consumer.h    |  4 ++--
 src/libdredd/src/mutate_ast_consumer.cc       | 24 +++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 0f06a8f..5398656 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -65,8 +65,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
 
   void RewriteExpressionsInMainFile();
 
-  bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
-                                                    uint64_t integer_constant);
+  bool RewriteExpressionInMainFileToIntegerConstant(
+      const clang::Expr* expr, const llvm::APSInt& integer_constant);
 
   void ApplyMutations(
       const MutationTreeNode& dredd_mutation_tree_node, int initial_mutation_id,
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 568e5ea..05fe31a 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -39,6 +39,7 @@
 #include "libdredd/util.h"
 #include "llvm/ADT/APInt.h"
 #include "llvm/ADT/APSInt.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/raw_ostream.h"
@@ -197,12 +198,12 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
             typeloc.getUnqualifiedLoc().getAs<clang::ConstantArrayTypeLoc>()) {
       RewriteExpressionInMainFileToIntegerConstant(
           constant_array_typeloc.getSizeExpr(),
-          llvm::dyn_cast<clang::ConstantArrayType>(
-              constant_array_typeloc.getType()
-                  ->getAsArrayTypeUnsafe()
-                  ->getAsArrayTypeUnsafe())
-              ->getSize()
-              .getLimitedValue());
+          llvm::APSInt(llvm::dyn_cast<clang::ConstantArrayType>(
+                           constant_array_typeloc.getType()
+                               ->getAsArrayTypeUnsafe()
+                               ->getAsArrayTypeUnsafe())
+                           ->getSize(),
+                       /*isUnsigned=*/true));
       typeloc = constant_array_typeloc.getElementLoc();
     }
   }
@@ -213,7 +214,7 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
   for (const auto& static_assert_decl :
        visitor_->GetStaticAssertionsToRewrite()) {
     RewriteExpressionInMainFileToIntegerConstant(
-        static_assert_decl->getAssertExpr(), 1);
+        static_assert_decl->getAssertExpr(), llvm::APSInt::get(1));
   }
 
   // Rewrite the constant integer arguments of builtin functions and templates.
@@ -229,22 +230,21 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
                 compiler_instance_->getASTContext())) {
       // Argument is an integer constant
       RewriteExpressionInMainFileToIntegerConstant(
-          constant_argument_expresion, integer_const_expr->getLimitedValue());
+          constant_argument_expresion, *integer_const_expr);
     }
   }
 }
 
 bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
-    const clang::Expr* expr, uint64_t integer_constant) {
+    const clang::Expr* expr, const llvm::APSInt& integer_constant) {
   auto source_range_in_main_file =
       GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
 
   // We only consider the rewriting if the source range for the size
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
-    std::stringstream stringstream;
-    stringstream << integer_constant;
-    rewriter_.ReplaceText(source_range_in_main_file, stringstream.str());
+    rewriter_.ReplaceText(source_range_in_main_file,
+                          llvm::toString(integer_constant, 10));
     return true;
   }
   return false;
-- 
2.43.0


From 69bc9241dbd501e7c9ed53fefae5528174dfdd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:06 +0000
Subject: [PATCH 02/25] fix: do not make removable the statement that yields a
 statement expression's value

---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 604f7c9..3380a95 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -703,6 +703,14 @@ bool MutateVisitor::TraverseCompoundStmt(clang::CompoundStmt* compound_stmt) {
       // without risking breaking compilation.
       continue;
     }
+    if (stmt == compound_stmt->getStmtExprResult() &&
+        GetFirstParentOfType<clang::StmtExpr>(
+            *compound_stmt, compiler_instance_->getASTContext()) != nullptr) {
+      // This statement yields the value of a GNU statement expression. Wrapping
+      // it in conditional code would change the type of the statement
+      // expression to void.
+      continue;
+    }
     if (options_->GetOptimiseMutations() &&
         llvm::dyn_cast<clang::CompoundStmt>(target_stmt) != nullptr) {
       // It is likely redundant to remove a compound statement since each of its
-- 
2.43.0


From eecbd4996bba51b9b87aeb193b1c5d1df89e68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:43 +0000
Subject: [PATCH 03/25] fix: do not mutate __extension__, __real__ and __imag__
 operators

---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 3380a95..47c9eae 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -381,6 +381,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // The GNU operators __extension__, __real__ and __imag__ have no replacement
+  // operators.
+  if (unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Extension ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Real ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Imag) {
+    return;
+  }
+
   // Check that the argument type is supported
   if (!IsTypeSupported(unary_operator->getSubExpr()->getType())) {
     return;
-- 
2.43.0


From 7b0339aec2aa61664e487b8ad28c655c4047f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:00 +0000
Subject: [PATCH 04/25] fix: keep the argument of __builtin_return_address
 constant

---
 src/libdredd/src/mutate_visitor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 47c9eae..a37b7e6 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -270,8 +270,10 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
   // which the expressions would normally evaluate.
   if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(stmt)) {
     if (call_expr->getBuiltinCallee() ==
-        clang::Builtin::BI__builtin_frame_address) {
-      // callee is `__builtin_frame_address()`
+            clang::Builtin::BI__builtin_frame_address ||
+        call_expr->getBuiltinCallee() ==
+            clang::Builtin::BI__builtin_return_address) {
+      // callee is `__builtin_frame_address()` or `__builtin_return_address()`
       constant_arguments_to_rewrite_.push_back(call_expr->getArg(0));
       return true;
     }
-- 
2.43.0


From b2b76390551accfc65acc8335b76c225c9e6f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:27 +0000
Subject: [PATCH 05/25] fix: do not mutate expressions of type __fp16

---
 src/libdredd/src/mutate_visitor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index a37b7e6..69367bd 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -65,7 +65,10 @@ bool MutateVisitor::IsTypeSupported(const clang::QualType qual_type) {
     return false;
   }
   const auto* builtin_type = qual_type->getAs<clang::BuiltinType>();
+  // The storage-only type __fp16 is not supported because it is not a valid
+  // parameter or return type, so that it cannot be used by mutator functions.
   return builtin_type != nullptr &&
+         builtin_type->getKind() != clang::BuiltinType::Half &&
          (builtin_type->isInteger() || builtin_type->isFloatingPoint());
 }
 
-- 
2.43.0


From 3d34f0866418346768f9ac9a6a2378bca77e335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:28 +0000
Subject: [PATCH 06/25] fix: do not crash on initialisers that are cast to a
 non-builtin type

---
 src/libdredd/src/mutation_replace_expr.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 7dec481..60ed2f9 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -608,9 +608,9 @@ void MutationReplaceExpr::ReplaceExprWithFunctionCall(
                                                       ast_context);
     prefix = "static_cast<" +
              implicit_cast_expr->getType()
-                 ->getAs<clang::BuiltinType>()
-                 ->getName(ast_context.getPrintingPolicy())
-                 .str() +
+                 .getCanonicalType()
+                 .getUnqualifiedType()
+                 .getAsString(ast_context.getPrintingPolicy()) +
              ">(" + prefix;
     suffix.append(")");
   }
-- 
2.43.0


From d4d25118e1104eeeb8690e7b8d7492085389235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 07/25] fix: report failure to write the mutation info file

---
 src/dredd/src/main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dredd/src/main.cc b/src/dredd/src/main.cc
index da21004..3b569fb 100644
--- a/src/dredd/src/main.cc
+++ b/src/dredd/src/main.cc
@@ -183,6 +183,12 @@ int main(int argc, const char** argv) {
     if (json_generation_status.ok()) {
       std::ofstream transformations_json_file(mutation_info_file);
       transformations_json_file << json_string;
+      transformations_json_file.close();
+      if (!transformations_json_file) {
+        llvm::errs() << "Error writing JSON data to " << mutation_info_file
+                     << "\n";
+        return 1;
+      }
     } else {
       llvm::errs() << "Error writing JSON data to " << mutation_info_file
                    << "\n";
-- 
2.43.0


From c02b89368f17654d1301ee191bc5e4818b085149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:49 +0000
Subject: [PATCH 08/25] fix: do not pass a null stream to fprintf in the C
 tracking prelude

---
 src/libdredd/src/mutate_ast_consumer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 05fe31a..adef799 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -456,6 +456,7 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeC(
             "getenv(\"DREDD_MUTANT_TRACKING_FILE\");\n";
   result << "  if (!dredd_tracking_environment_variable) return;\n";
   result << "  FILE* fp = fopen(dredd_tracking_environment_variable, \"a\");\n";
+  result << "  if (!fp) return;\n";
   result << "  for (int i = 0; i < num_mutations; i++) {\n";
   result << R"(    fprintf(fp, "%d\n", )" + std::to_string(initial_mutation_id)
          << " + local_mutation_id + i);\n";
-- 
2.43.0


From a66131adc1aeebf3e89222faf369042a76908db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:49 +0000
Subject: [PATCH 09/25] fix: recognise a source file that is named in different
 ways

---
 .../src/new_mutate_frontend_action_factory.cc      | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/new_mutate_frontend_action_factory.cc b/src/libdredd/src/new_mutate_frontend_action_factory.cc
index dee7212..d45e02b 100644
--- a/src/libdredd/src/new_mutate_frontend_action_factory.cc
+++ b/src/libdredd/src/new_mutate_frontend_action_factory.cc
@@ -26,7 +26,9 @@
 #include "clang/Tooling/Tooling.h"
 #include "libdredd/mutate_ast_consumer.h"
 #include "libdredd/options.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/FileSystem.h"
 #include "llvm/Support/raw_ostream.h"
 
 namespace dredd {
@@ -54,8 +56,16 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
     (void)input_exists;  // Keep release-mode compilers happy.
     assert(input_exists && "No current file.");
 
+    // The same file may be named in several ways (e.g. via a symbolic link or a
+    // path with redundant components), so it is identified by its real path.
+    llvm::SmallString<256> real_path;
+    if (llvm::sys::fs::real_path(getCurrentFile(), real_path)) {
+      real_path = getCurrentFile();
+    }
+    const std::string file_id = real_path.str().str();
+
     // Check whether this file has already been processed.
-    if (processed_files_->contains(getCurrentFile().str())) {
+    if (processed_files_->contains(file_id)) {
       llvm::errs() << "Warning: already processed " << getCurrentFile()
                    << "; skipping repeat occurrence.\n";
       return false;
@@ -63,7 +73,7 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
 
     // Record that this file has been processed so that duplicate processing
     // will be detected in the future.
-    processed_files_->insert(getCurrentFile().str());
+    processed_files_->insert(file_id);
     return true;
   }
 
-- 
2.43.0


From cd46a108161ebca8461df82fc4442dc0c0c0bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:26 +0000
Subject: [PATCH 10/25] fix: separate inserted operator functions from a
 preceding identifier

Mutating 'else++x;' or 'else(x)=2;' glued the name of the mutator function
onto the preceding keyword.
---
 .../mutation_replace_binary_operator.h        |  1 +
 src/libdredd/include/libdredd/util.h          |  7 ++++
 .../src/mutation_replace_binary_operator.cc   | 39 +++++++++++++++----
 src/libdredd/src/mutation_replace_expr.cc     | 21 ----------
 .../src/mutation_replace_unary_operator.cc    |  7 ++++
 src/libdredd/src/util.cc                      | 19 +++++++++
 6 files changed, 65 insertions(+), 29 deletions(-)

diff --git a/src/libdredd/include/libdredd/mutation_replace_binary_operator.h b/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
index d5b4279..c5044bc 100644
--- a/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
+++ b/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
@@ -110,6 +110,7 @@ class MutationReplaceBinaryOperator : public Mutation {
   // Using these rewritings avoid the need to change when the operator arguments
   // are evaluated when no mutations are enabled.
   void HandleCLogicalOperator(
+      const clang::ASTContext& ast_context,
       const clang::Preprocessor& preprocessor,
       const std::string& new_function_prefix, const std::string& result_type,
       const std::string& lhs_type, const std::string& rhs_type,
diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index bfea16b..11a6304 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -61,6 +61,13 @@ template <typename HasSourceRange>
   return GetSourceRangeInMainFile(preprocessor, ast_node.getSourceRange());
 }
 
+// Determines whether the character that immediately precedes the given source
+// range could be part of an identifier. If so, text that is inserted at the
+// start of the range must be separated from what precedes it by a space.
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::ASTContext& ast_context,
+    const clang::SourceRange& source_range);
+
 // Introduced to work around what seems like a bug in Clang, where a source
 // range can end earlier than it starts. See "structured_binding.cc" under
 // single file tests.
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 3373707..a9e97cd 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -577,8 +577,8 @@ protobufs::MutationGroup MutationReplaceBinaryOperator::Apply(
     // logic for handling other operators, it is simpler to handle this case
     // separately.
     HandleCLogicalOperator(
-        preprocessor, new_function_name, result_type, lhs_type, rhs_type,
-        options.GetOnlyTrackMutantCoverage(), first_mutation_id_in_file,
+        ast_context, preprocessor, new_function_name, result_type, lhs_type,
+        rhs_type, options.GetOnlyTrackMutantCoverage(), first_mutation_id_in_file,
         mutation_id, rewriter, dredd_declarations, inner_result);
 
     protobufs::MutationGroup result;
@@ -695,6 +695,13 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   }
   rhs_suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
+  // Make sure that the function name does not get conjoined onto a preceding
+  // identifier or keyword.
+  if (PrecedingCharacterIsIdentifierCharacter(ast_context,
+                                              lhs_source_range_in_main_file)) {
+    lhs_prefix = " " + lhs_prefix;
+  }
+
   // The prefixes and suffixes are ready, so make the relevant insertions.
   bool rewriter_result = rewriter.InsertTextBefore(
       lhs_source_range_in_main_file.getBegin(), lhs_prefix);
@@ -712,6 +719,7 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
 }
 
 void MutationReplaceBinaryOperator::HandleCLogicalOperator(
+    const clang::ASTContext& ast_context,
     const clang::Preprocessor& preprocessor,
     const std::string& new_function_prefix, const std::string& result_type,
     const std::string& lhs_type, const std::string& rhs_type,
@@ -747,8 +755,13 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
       auto source_range_lhs =
           GetSourceRangeInMainFile(preprocessor, *binary_operator_->getLHS());
       const std::string lhs_function_name = new_function_prefix + "_lhs";
-      rewriter.InsertTextBefore(source_range_lhs.getBegin(),
-                                lhs_function_name + "(");
+      rewriter.InsertTextBefore(
+          source_range_lhs.getBegin(),
+          (PrecedingCharacterIsIdentifierCharacter(ast_context,
+                                                   source_range_lhs)
+               ? " "
+               : "") +
+              lhs_function_name + "(");
       rewriter.InsertTextAfterToken(
           source_range_lhs.getEnd(),
           ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
@@ -789,8 +802,13 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
       auto source_range_rhs =
           GetSourceRangeInMainFile(preprocessor, *binary_operator_->getRHS());
       const std::string rhs_function_name = new_function_prefix + "_rhs";
-      rewriter.InsertTextBefore(source_range_rhs.getBegin(),
-                                rhs_function_name + "(");
+      rewriter.InsertTextBefore(
+          source_range_rhs.getBegin(),
+          (PrecedingCharacterIsIdentifierCharacter(ast_context,
+                                                   source_range_rhs)
+               ? " "
+               : "") +
+              rhs_function_name + "(");
       rewriter.InsertTextAfterToken(
           source_range_rhs.getEnd(),
           ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
@@ -832,8 +850,13 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
     auto source_range_binary_operator =
         GetSourceRangeInMainFile(preprocessor, *binary_operator_);
     const std::string outer_function_name = new_function_prefix + "_outer";
-    rewriter.InsertTextBefore(source_range_binary_operator.getBegin(),
-                              outer_function_name + "(");
+    rewriter.InsertTextBefore(
+        source_range_binary_operator.getBegin(),
+        (PrecedingCharacterIsIdentifierCharacter(ast_context,
+                                                 source_range_binary_operator)
+             ? " "
+             : "") +
+            outer_function_name + "(");
     rewriter.InsertTextAfterToken(
         source_range_binary_operator.getEnd(),
         ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 60ed2f9..5209fe6 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -15,7 +15,6 @@
 #include "libdredd/mutation_replace_expr.h"
 
 #include <cassert>
-#include <cctype>
 #include <sstream>
 
 #include "clang/AST/APValue.h"
@@ -37,26 +36,6 @@
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 
-namespace {
-bool PrecedingCharacterIsIdentifierCharacter(
-    const clang::ASTContext& ast_context,
-    const clang::SourceRange& source_range) {
-  bool is_invalid = false;
-  const char* pointer_to_character_before_location =
-      ast_context.getSourceManager().getCharacterData(
-          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
-  if (is_invalid) {
-    return false;
-  }
-  // There is a previous character. Check whether it is alphanumeric, or an
-  // underscore.
-  const char character_before_location =
-      pointer_to_character_before_location[0];
-  return character_before_location == '_' ||
-         static_cast<bool>(std::isalnum(character_before_location));
-}
-}  // namespace
-
 namespace dredd {
 dredd::MutationReplaceExpr::MutationReplaceExpr(
     const clang::Expr& expr, const clang::Preprocessor& preprocessor,
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 5782279..3aa8c1f 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -447,6 +447,13 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   }
   suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
+  // Make sure that the function name does not get conjoined onto a preceding
+  // identifier or keyword.
+  if (PrecedingCharacterIsIdentifierCharacter(
+          ast_context, unary_operator_source_range_in_main_file)) {
+    prefix = " " + prefix;
+  }
+
   // The prefix and suffix are ready, so make the relevant insertions.
   bool rewriter_result = rewriter.InsertTextBefore(
       unary_operator_source_range_in_main_file.getBegin(), prefix);
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 2165a07..986113d 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cctype>
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
@@ -118,6 +119,24 @@ bool SourceRangeConsistencyCheck(clang::SourceRange source_range,
   return start_line < end_line || start_column < end_column;
 }
 
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::ASTContext& ast_context,
+    const clang::SourceRange& source_range) {
+  bool is_invalid = false;
+  const char* pointer_to_character_before_location =
+      ast_context.getSourceManager().getCharacterData(
+          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
+  if (is_invalid) {
+    return false;
+  }
+  // There is a previous character. Check whether it is alphanumeric, or an
+  // underscore.
+  const char character_before_location =
+      pointer_to_character_before_location[0];
+  return character_before_location == '_' ||
+         static_cast<bool>(std::isalnum(character_before_location));
+}
+
 InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
                                        const clang::ASTContext& ast_context) {
   const auto& source_manager = ast_context.getSourceManager();
-- 
2.43.0


From 81412190c7858751a192d6ae3581cc8465f12869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:50 +0000
Subject: [PATCH 11/25] fix: replace operators that are spelled by alternative
 tokens or macros

The extent of the operator symbol was taken from the opcode, so that mutating
'a and b' or 'not a' left part of the symbol behind, and a binary operator
spelled by a macro was left in place.
---
 src/libdredd/src/mutate_visitor.cc               |  9 +++++++++
 .../src/mutation_replace_binary_operator.cc      | 16 +++++++++-------
 .../src/mutation_replace_unary_operator.cc       | 11 ++++-------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 69367bd..5891c38 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -456,6 +456,15 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // Check that the operator symbol, which will be replaced, is part of the main
+  // file. It might not be if it comes from a macro.
+  if (GetSourceRangeInMainFile(
+          compiler_instance_->getPreprocessor(),
+          clang::SourceRange(binary_operator->getOperatorLoc()))
+          .isInvalid()) {
+    return;
+  }
+
   // We only want to change operators for binary operations on basic types.
   // Check that the argument types are supported.
   if (!IsTypeSupported(binary_operator->getLHS()->getType())) {
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index a9e97cd..76e1e69 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -653,13 +653,15 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   // replacing the text for the binary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Replace the operator symbol with ","
-  rewriter.ReplaceText(
-      binary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::BinaryOperator::getOpcodeStr(binary_operator_->getOpcode())
-              .size()),
-      ",");
+  // Replace the operator symbol with ",". The symbol might be spelled using an
+  // alternative token or a macro, so its extent is not determined by the
+  // opcode.
+  const clang::SourceRange operator_source_range_in_main_file =
+      GetSourceRangeInMainFile(
+          preprocessor, clang::SourceRange(binary_operator_->getOperatorLoc()));
+  assert(operator_source_range_in_main_file.isValid() &&
+         "Invalid source range.");
+  rewriter.ReplaceText(operator_source_range_in_main_file, ",");
 
   // These record the text that should be inserted before and after the LHS and
   // RHS operands.
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 3aa8c1f..1e42251 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -408,13 +408,10 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   // replacing the text for the unary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Remove the operator symbol.
-  rewriter.ReplaceText(
-      unary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::UnaryOperator::getOpcodeStr(unary_operator_->getOpcode())
-              .size()),
-      "");
+  // Remove the operator symbol. The symbol might be spelled using an alternative
+  // token, so its length is not determined by the opcode.
+  rewriter.ReplaceText(clang::SourceRange(unary_operator_->getOperatorLoc()),
+                       "");
 
   // These record the text that should be inserted before and after the operand.
   std::string prefix = new_function_name;
-- 
2.43.0


From fd529233c656fe3e3289183661f0624316feaa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:42 +0000
Subject: [PATCH 12/25] fix: do not mutate x-values

Replacing an x-value by the result of a mutator function makes a reference
that is bound to it refer to a copy, even when no mutant is enabled.
---
 src/libdredd/src/mutate_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 5891c38..372c6a5 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -521,6 +521,13 @@ void MutateVisitor::HandleExpr(clang::Expr* expr) {
     return;
   }
 
+  // Mutator functions for r-values take their argument by value, and return a
+  // new value. An x-value denotes an object that might be modified through a
+  // reference that is bound to it, so must not be replaced by a copy.
+  if (expr->isXValue()) {
+    return;
+  }
+
   // It is incorrect to attempt to mutate braced initializer lists.
   if (llvm::dyn_cast<clang::InitListExpr>(expr) != nullptr) {
     return;
-- 
2.43.0


From 93ecb13c3ce7254281aa7512cb2195101d6e2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:34 +0000
Subject: [PATCH 13/25] fix: do not pass register variables or vector elements
 by reference

The address of a register variable cannot be taken in C, and references cannot
bind to elements of vectors, so mutating them led to code that does not compile.
---
 src/libdredd/include/libdredd/util.h      |  6 +++++
 src/libdredd/src/mutate_visitor.cc        | 16 ++++++------
 src/libdredd/src/mutation_replace_expr.cc |  4 +--
 src/libdredd/src/util.cc                  | 30 +++++++++++++++++++++++
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index 11a6304..5a59623 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -74,6 +74,12 @@ bool PrecedingCharacterIsIdentifierCharacter(
 bool SourceRangeConsistencyCheck(clang::SourceRange source_range,
                                  const clang::ASTContext& ast_context);
 
+// Determines whether the object to which the given l-value expression refers
+// can be passed by reference (in C++) or via its address (in C). This is not the
+// case for bit-fields, elements of vectors and, in C, register variables.
+bool CanPassByReference(const clang::Expr& expr,
+                        const clang::ASTContext& ast_context);
+
 // Delegates to Expr::EvaluateAsBooleanCondition, but only if the expression is
 // not value-dependent.
 bool EvaluateAsBooleanCondition(const clang::Expr& expr,
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 372c6a5..8704af1 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -400,11 +400,12 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
   }
 
   // Mutation functions for ++ and -- operators require their argument to be
-  // passed by reference. It is not possible to pass bit-fields by reference,
-  // this mutation of these operators when applied to bit-fields is not
-  // supported.
+  // passed by reference. It is not possible to pass e.g. bit-fields by
+  // reference, thus mutation of these operators when applied to bit-fields is
+  // not supported.
   if (unary_operator->isIncrementDecrementOp() &&
-      unary_operator->getSubExpr()->refersToBitField()) {
+      !CanPassByReference(*unary_operator->getSubExpr(),
+                          compiler_instance_->getASTContext())) {
     return;
   }
 
@@ -475,11 +476,12 @@ void MutateVisitor::HandleBinaryOperator(
   }
 
   // Mutation functions for assignment operators (for example +=) require their
-  // first argument to be passed by reference. It is not possible to pass
-  // bit-fields by reference, this mutation of these operators when applied to a
+  // first argument to be passed by reference. It is not possible to pass e.g.
+  // bit-fields by reference, thus mutation of these operators when applied to a
   // bit-field first argument is not supported.
   if (binary_operator->isAssignmentOp() &&
-      binary_operator->getLHS()->refersToBitField()) {
+      !CanPassByReference(*binary_operator->getLHS(),
+                          compiler_instance_->getASTContext())) {
     return;
   }
 
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 5209fe6..79d2bb1 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -678,10 +678,10 @@ bool MutationReplaceExpr::CanMutateLValue(clang::ASTContext& ast_context,
   if (expr.getType().isConstQualified() || expr.getType()->isBooleanType()) {
     return false;
   }
-  // Bit-fields cannot be passed by reference, and mutator functions for
+  // E.g. bit-fields cannot be passed by reference, and mutator functions for
   // l-values must be passed by reference, hence bit-fields are not supported
   // in this context.
-  if (expr.refersToBitField()) {
+  if (!CanPassByReference(expr, ast_context)) {
     return false;
   }
   // The following checks that `expr` is the child of an ImplicitCastExpr that
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 986113d..b7fe603 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -20,13 +20,16 @@
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
+#include "clang/AST/Decl.h"
 #include "clang/AST/Expr.h"
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/SourceManager.h"
+#include "clang/Basic/Specifiers.h"
 #include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "llvm/ADT/APFloat.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
@@ -184,6 +187,33 @@ InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
   }
 }
 
+bool CanPassByReference(const clang::Expr& expr,
+                        const clang::ASTContext& ast_context) {
+  if (expr.refersToBitField() || expr.refersToVectorElement()) {
+    return false;
+  }
+  if (ast_context.getLangOpts().CPlusPlus) {
+    return true;
+  }
+  // In C it is not possible to take the address of (part of) a variable that is
+  // declared using "register".
+  const clang::Expr* object = expr.IgnoreParens();
+  while (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(object)) {
+    if (member_expr->isArrow()) {
+      return true;
+    }
+    object = member_expr->getBase()->IgnoreParens();
+  }
+  const auto* decl_ref_expr = llvm::dyn_cast<clang::DeclRefExpr>(object);
+  if (decl_ref_expr == nullptr) {
+    return true;
+  }
+  const auto* var_decl =
+      llvm::dyn_cast<clang::VarDecl>(decl_ref_expr->getDecl());
+  return var_decl == nullptr ||
+         var_decl->getStorageClass() != clang::StorageClass::SC_Register;
+}
+
 bool EvaluateAsBooleanCondition(const clang::Expr& expr,
                                 const clang::ASTContext& ast_context,
                                 bool& result) {
-- 
2.43.0


From 247b0263c4b5abe3c48a469ac5484017501aae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:51 +0000
Subject: [PATCH 14/25] fix: measure the replaced operator symbol in the
 original source code

The range overload of Rewriter::ReplaceText includes text that was already
inserted at the ends of the range.
---
 src/libdredd/include/libdredd/util.h                 | 6 ++++++
 src/libdredd/src/mutation_replace_binary_operator.cc | 5 ++++-
 src/libdredd/src/mutation_replace_unary_operator.cc  | 7 +++++--
 src/libdredd/src/util.cc                             | 9 +++++++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index 5a59623..92f12bd 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -61,6 +61,12 @@ template <typename HasSourceRange>
   return GetSourceRangeInMainFile(preprocessor, ast_node.getSourceRange());
 }
 
+// Yields the number of characters of the original source code that the given
+// token range covers. The length is not affected by text that has been inserted
+// by a rewriter.
+unsigned int GetSourceRangeLength(const clang::SourceRange& source_range,
+                                  const clang::ASTContext& ast_context);
+
 // Determines whether the character that immediately precedes the given source
 // range could be part of an identifier. If so, text that is inserted at the
 // start of the range must be separated from what precedes it by a space.
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 76e1e69..741988e 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -661,7 +661,10 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
           preprocessor, clang::SourceRange(binary_operator_->getOperatorLoc()));
   assert(operator_source_range_in_main_file.isValid() &&
          "Invalid source range.");
-  rewriter.ReplaceText(operator_source_range_in_main_file, ",");
+  rewriter.ReplaceText(
+      operator_source_range_in_main_file.getBegin(),
+      GetSourceRangeLength(operator_source_range_in_main_file, ast_context),
+      ",");
 
   // These record the text that should be inserted before and after the LHS and
   // RHS operands.
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 1e42251..2b12b6a 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -410,8 +410,11 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
 
   // Remove the operator symbol. The symbol might be spelled using an alternative
   // token, so its length is not determined by the opcode.
-  rewriter.ReplaceText(clang::SourceRange(unary_operator_->getOperatorLoc()),
-                       "");
+  rewriter.ReplaceText(
+      unary_operator_->getOperatorLoc(),
+      GetSourceRangeLength(
+          clang::SourceRange(unary_operator_->getOperatorLoc()), ast_context),
+      "");
 
   // These record the text that should be inserted before and after the operand.
   std::string prefix = new_function_name;
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index b7fe603..8d28f0a 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -122,6 +122,15 @@ bool SourceRangeConsistencyCheck(clang::SourceRange source_range,
   return start_line < end_line || start_column < end_column;
 }
 
+unsigned int GetSourceRangeLength(const clang::SourceRange& source_range,
+                                  const clang::ASTContext& ast_context) {
+  const auto& source_manager = ast_context.getSourceManager();
+  return source_manager.getFileOffset(source_range.getEnd()) -
+         source_manager.getFileOffset(source_range.getBegin()) +
+         clang::Lexer::MeasureTokenLength(source_range.getEnd(), source_manager,
+                                          ast_context.getLangOpts());
+}
+
 bool PrecedingCharacterIsIdentifierCharacter(
     const clang::ASTContext& ast_context,
     const clang::SourceRange& source_range) {
-- 
2.43.0


From 2623650848cf3c7ff9fff9d5eebfff7827ef4f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:10 +0000
Subject: [PATCH 15/25] fix: record mutants that follow a place without mutants
 in tracking mode

---
 src/libdredd/src/mutate_ast_consumer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index adef799..be6fb2d 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -354,6 +354,9 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeCpp(
   result << "\n";
   result << "static void __dredd_record_covered_mutants(int local_mutation_id, "
             "int num_mutations) {\n";
+  // A place without mutants shares its id with the next place that has mutants,
+  // and so must not claim that this id has been recorded.
+  result << "  if (num_mutations == 0) return;\n";
   result << "  static std::atomic<bool> already_recorded[" << num_mutations
          << "];\n";
   result
@@ -449,6 +452,7 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeC(
   result << "\n";
   result << "static void __dredd_record_covered_mutants(int local_mutation_id, "
             "int num_mutations) {\n";
+  result << "  if (num_mutations == 0) return;\n";
   result << "  static atomic_bool already_recorded[" << num_mutations << "];\n";
   result << "  if (atomic_exchange(&already_recorded[local_mutation_id], 1)) "
             "return;\n";
-- 
2.43.0


From 59c4f8a64f2a2b95471d407aa7393c5e4695a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:27 +0000
Subject: [PATCH 16/25] fix: do not mutate the arguments of attributes

The condition of an enable_if attribute must be a constant expression.
---
 .../include_private/include/libdredd/mutate_visitor.h  |  5 +++++
 src/libdredd/src/mutate_visitor.cc                     | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 3f0e50a..9e29983 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -23,6 +23,7 @@
 #include <utility>
 #include <vector>
 
+#include "clang/AST/Attr.h"
 #include "clang/AST/Decl.h"
 #include "clang/AST/DeclBase.h"
 #include "clang/AST/DeclCXX.h"
@@ -89,6 +90,10 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   // limited and cannot include lambdas in general.
   bool TraverseParmVarDecl(clang::ParmVarDecl* parm_var_decl);
 
+  // Overridden to avoid mutating expressions occurring as arguments of
+  // attributes, which typically need to be compile-time constants.
+  bool TraverseAttr(clang::Attr* attr);
+
   bool VisitExpr(clang::Expr* expr);
 
   bool TraverseCompoundStmt(clang::CompoundStmt* compound_stmt);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 8704af1..d34555c 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -361,6 +361,16 @@ bool MutateVisitor::TraverseLambdaCapture(
   return true;
 }
 
+bool MutateVisitor::TraverseAttr(clang::Attr* attr) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)attr;
+  // The arguments of attributes, such as 'enable_if', typically need to be
+  // compile-time constants, and so should not be mutated.
+  return true;
+}
+
 bool MutateVisitor::TraverseParmVarDecl(clang::ParmVarDecl* parm_var_decl) {
   // Prevent compilers complaining that this method could be made static, and
   // that it ignores its parameter.
-- 
2.43.0


From 515ef464b3d95884482a374222ec8e065e704207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:27 +0000
Subject: [PATCH 17/25] fix: do not mutate constraints of functions and lambdas

---
 .../include/libdredd/mutate_visitor.h         |  3 +++
 src/libdredd/src/mutate_visitor.cc            | 20 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 9e29983..b3b577b 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -78,6 +78,9 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseTemplateArgumentLoc(
       clang::TemplateArgumentLoc template_argument_loc);
 
+  // Overridden to avoid mutating the constraints of lambdas.
+  bool TraverseLambdaExpr(clang::LambdaExpr* lambda_expr);
+
   // Overridden to avoid mutating lambda capture expressions, because the code
   // that can occur in a lambda capture expression is very limited and in
   // particular cannot include other lambdas.
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index d34555c..c3d16e5 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -28,6 +28,7 @@
 #include "clang/AST/DeclCXX.h"
 #include "clang/AST/Expr.h"
 #include "clang/AST/ExprCXX.h"
+#include "clang/AST/ExprConcepts.h"
 #include "clang/AST/LambdaCapture.h"
 #include "clang/AST/OperationKinds.h"
 #include "clang/AST/RecursiveASTVisitor.h"
@@ -235,6 +236,19 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     return true;
   }
 
+  // Do not mutate constraints, which require compile-time evaluation.
+  if (llvm::dyn_cast<clang::RequiresExpr>(stmt) != nullptr) {
+    return true;
+  }
+  if (!enclosing_decls_.empty()) {
+    const auto* function_decl =
+        llvm::dyn_cast<clang::FunctionDecl>(enclosing_decls_.back());
+    if (function_decl != nullptr &&
+        function_decl->getTrailingRequiresClause() == stmt) {
+      return true;
+    }
+  }
+
   // Do not mutate under 'sizeof' or 'alignof', as this is guaranteed to yield
   // equivalent mutants. Note that we *do* want to mutate above these
   // expressions, hence we ignore children of such expressions, rather than
@@ -349,6 +363,12 @@ bool MutateVisitor::TraverseTemplateArgumentLoc(
   return true;
 }
 
+bool MutateVisitor::TraverseLambdaExpr(clang::LambdaExpr* lambda_expr) {
+  // Only the body of a lambda is considered for mutation: its captures and
+  // constraints must not be mutated.
+  return TraverseStmt(lambda_expr->getBody());
+}
+
 bool MutateVisitor::TraverseLambdaCapture(
     clang::LambdaExpr* lambda_expr, const clang::LambdaCapture* lambda_capture,
     clang::Expr* init) {
-- 
2.43.0


From 49e9a1f3b371d995b5fd31fabbe73e20f8b892c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:27 +0000
Subject: [PATCH 18/25] fix: do not mutate operands of inline assembly and
 vector shuffles

---
 src/libdredd/src/mutate_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index c3d16e5..a244edd 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -280,6 +280,13 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     }
   }
 
+  // The operands of inline assembly may be required to be compile-time
+  // constants, and the indices of a vector shuffle always are.
+  if (llvm::dyn_cast<clang::AsmStmt>(stmt) != nullptr ||
+      llvm::dyn_cast<clang::ShuffleVectorExpr>(stmt) != nullptr) {
+    return true;
+  }
+
   // Some functions, e.g., __builtin_frame_address(), require their arguments to
   // be constant integers. Attempting to apply a mutator function to such an
   // argument would result in a compile-time error. Thus, we record these
-- 
2.43.0


From b7f2ee8a36e3ddb5b3c1d84428108c2c90565936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:27 +0000
Subject: [PATCH 19/25] fix: do not mutate builtin arguments that have to be
 constant

---
 src/libdredd/src/mutate_visitor.cc | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index a244edd..38076e0 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -293,13 +293,28 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
   // arguments' expressions so that they can be rewritten with the values to
   // which the expressions would normally evaluate.
   if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(stmt)) {
-    if (call_expr->getBuiltinCallee() ==
-            clang::Builtin::BI__builtin_frame_address ||
-        call_expr->getBuiltinCallee() ==
-            clang::Builtin::BI__builtin_return_address) {
-      // callee is `__builtin_frame_address()` or `__builtin_return_address()`
-      constant_arguments_to_rewrite_.push_back(call_expr->getArg(0));
-      return true;
+    const unsigned int builtin_id = call_expr->getBuiltinCallee();
+    if (builtin_id != 0) {
+      // Bit i of this mask is set if argument i is required to be constant.
+      unsigned int constant_arguments = 0;
+      clang::ASTContext::GetBuiltinTypeError error = clang::ASTContext::GE_None;
+      compiler_instance_->getASTContext().GetBuiltinType(builtin_id, error,
+                                                         &constant_arguments);
+      if (builtin_id == clang::Builtin::BI__builtin_prefetch ||
+          builtin_id == clang::Builtin::BI__builtin_object_size ||
+          builtin_id == clang::Builtin::BI__builtin_dynamic_object_size) {
+        // The signatures of these functions do not tell that all arguments but
+        // the first one are required to be constant.
+        constant_arguments |= ~1U;
+      }
+      if (constant_arguments != 0) {
+        for (unsigned int i = 0; i < call_expr->getNumArgs() && i < 32; i++) {
+          if ((constant_arguments & (1U << i)) != 0) {
+            constant_arguments_to_rewrite_.push_back(call_expr->getArg(i));
+          }
+        }
+        return true;
+      }
     }
   }
 
-- 
2.43.0


From 2d6141c2bc7ef28e9fc9044da1baaf3e23c7433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 20/25] fix: do not mutate unevaluated operands of decltype,
 typeof, typeid, __alignof__ and _Generic

---
 .../include/libdredd/mutate_visitor.h         |  6 +++
 src/libdredd/src/mutate_visitor.cc            | 42 ++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index b3b577b..414f9c5 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -73,6 +73,12 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseDependentSizedArrayTypeLoc(
       clang::DependentSizedArrayTypeLoc dependent_sized_array_type_loc);
 
+  // Overridden to avoid mutating the unevaluated operands of 'decltype' and
+  // 'typeof'.
+  bool TraverseDecltypeTypeLoc(clang::DecltypeTypeLoc decltype_type_loc);
+  bool TraverseTypeOfExprTypeLoc(
+      clang::TypeOfExprTypeLoc type_of_expr_type_loc);
+
   // Overridden to avoid mutating template argument expressions, which typically
   // (and perhaps always) need to be compile-time constants.
   bool TraverseTemplateArgumentLoc(
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 38076e0..31ff22a 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -257,7 +257,25 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
           GetFirstParentOfType<clang::UnaryExprOrTypeTraitExpr>(
               *stmt, compiler_instance_->getASTContext())) {
     const auto kind = unary_expr_or_type_trait_parent->getKind();
-    if (kind == clang::UETT_SizeOf || kind == clang::UETT_AlignOf) {
+    if (kind == clang::UETT_SizeOf || kind == clang::UETT_AlignOf ||
+        kind == clang::UETT_PreferredAlignOf) {
+      return true;
+    }
+  }
+
+  // Similarly, do not mutate the operand of 'typeid' if it is not evaluated,
+  // nor the controlling expression of a generic selection: besides yielding
+  // equivalent mutants, lambdas cannot appear in unevaluated operands.
+  if (const auto* cxx_typeid_expr = GetFirstParentOfType<clang::CXXTypeidExpr>(
+          *stmt, compiler_instance_->getASTContext())) {
+    if (!cxx_typeid_expr->isPotentiallyEvaluated()) {
+      return true;
+    }
+  }
+  if (const auto* generic_selection_expr =
+          GetFirstParentOfType<clang::GenericSelectionExpr>(
+              *stmt, compiler_instance_->getASTContext())) {
+    if (generic_selection_expr->getControllingExpr() == stmt) {
       return true;
     }
   }
@@ -374,6 +392,28 @@ bool MutateVisitor::TraverseDependentSizedArrayTypeLoc(
   return true;
 }
 
+bool MutateVisitor::TraverseDecltypeTypeLoc(
+    clang::DecltypeTypeLoc decltype_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)decltype_type_loc;
+  // The operand of 'decltype' is not evaluated, and lambdas cannot appear in
+  // unevaluated operands.
+  return true;
+}
+
+bool MutateVisitor::TraverseTypeOfExprTypeLoc(
+    clang::TypeOfExprTypeLoc type_of_expr_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)type_of_expr_type_loc;
+  // The operand of 'typeof' is not evaluated, and lambdas cannot appear in
+  // unevaluated operands.
+  return true;
+}
+
 bool MutateVisitor::TraverseTemplateArgumentLoc(
     clang::TemplateArgumentLoc template_argument_loc) {
   // Prevent compilers complaining that this method could be made static, and
-- 
2.43.0


From cf608a0d097f7d218349b2721362da97098c6639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 21/25] fix: do not return references to temporaries from
 lambdas

An l-value that is obtained by calling a method of a temporary, or via a
pointer or conversion from a temporary, was evaluated in a lambda that
returned a reference to the destroyed temporary.
---
 src/libdredd/src/mutate_visitor.cc | 43 +++++++++++++-----------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 31ff22a..d51aa29 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -496,8 +496,10 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
   // reference, thus mutation of these operators when applied to bit-fields is
   // not supported.
   if (unary_operator->isIncrementDecrementOp() &&
-      !CanPassByReference(*unary_operator->getSubExpr(),
-                          compiler_instance_->getASTContext())) {
+      (!CanPassByReference(*unary_operator->getSubExpr(),
+                           compiler_instance_->getASTContext()) ||
+       MayDependOnLifetimeOfMaterializedTemporaryStorage(
+           *unary_operator->getSubExpr()))) {
     return;
   }
 
@@ -960,33 +962,24 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
     return true;
   }
 
-  if (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(&expr)) {
-    // Consider a member expression whose base expression may depend on the
-    // lifetime of a materialized temporary. If the member expression yields
-    // an lvalue or a pointer, then the member expression itself may depend on
-    // the lifetime of the materialized temporary.
-    if (member_expr->isLValue() || member_expr->getType()->isPointerType()) {
-      return MayDependOnLifetimeOfMaterializedTemporaryStorage(
-          *member_expr->getBase());
-    }
+  if (expr.isPRValue() && expr.getType()->isArithmeticType()) {
+    // An arithmetic value cannot refer to the storage of a temporary.
     return false;
   }
 
-  if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(&expr)) {
-    // Consider a calll expression that returns an lvalue or pointer. If some
-    // argument to the call depends on the lifetime of a materialized temporary
-    // then the overall call expression may do so too. In practice this occurs
-    // in the context of the [] operator on a std::vector. When the target
-    // vector is a temporary, the [] operator may yield a reference into
-    // storage owned by the temporary.
-    if (call_expr->isLValue() || call_expr->getType()->isPointerType()) {
-      for (const auto* arg : call_expr->arguments()) {
-        if (MayDependOnLifetimeOfMaterializedTemporaryStorage(*arg)) {
-          return true;
-        }
-      }
+  // Consider any other expression, such as a member expression or a call that
+  // yields an lvalue or a pointer. If one of its operands depends on the
+  // lifetime of a materialized temporary then the overall expression may do so
+  // too. In practice this occurs in the context of the [] operator on a
+  // std::vector, and of calls to methods of temporaries. When the target vector
+  // is a temporary, the [] operator may yield a reference into storage owned by
+  // the temporary.
+  for (const auto* child : expr.children()) {
+    const auto* child_expr = llvm::dyn_cast_or_null<clang::Expr>(child);
+    if (child_expr != nullptr &&
+        MayDependOnLifetimeOfMaterializedTemporaryStorage(*child_expr)) {
+      return true;
     }
-    return false;
   }
 
   return false;
-- 
2.43.0


From 41f1c06b489518729110e9260ec21655783d9519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:08 +0000
Subject: [PATCH 22/25] fix: place the prelude in the main file if
 __dredd_prelude_start is declared by a macro

---
 src/libdredd/src/mutate_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index d51aa29..fb6180d 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -140,7 +140,7 @@ bool MutateVisitor::TraverseDecl(clang::Decl* decl) {
         !HasDreddPreludeStartLocation()) {
       // This is a special function provided by the user to record where the
       // Dredd prelude should be inserted.
-      dredd_prelude_start_location_ = function_decl->getBeginLoc();
+      dredd_prelude_start_location_ = source_range_in_main_file.getBegin();
     }
     if (function_decl->isConstexpr()) {
       // Because Dredd's mutations occur dynamically, they cannot be applied to
-- 
2.43.0


From f33e0d60b1d126be4788f65a9fb0953e78564abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:20 +0000
Subject: [PATCH 23/25] fix: do not replace enumeration-typed template
 arguments by integer literals

An integer literal does not convert to the enumeration type of a non-type
template parameter, so S<B> must not become S<1>.
---
 src/libdredd/src/mutate_ast_consumer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index be6fb2d..5e77c33 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -225,6 +225,11 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
       continue;
     }
     already_rewritten.insert(constant_argument_expresion);
+    if (constant_argument_expresion->getType()->isEnumeralType()) {
+      // An integer literal cannot be used where a value of an enumeration is
+      // required.
+      continue;
+    }
     if (const auto integer_const_expr =
             constant_argument_expresion->getIntegerConstantExpr(
                 compiler_instance_->getASTContext())) {
-- 
2.43.0


From ea5e6facf7a933cdc58249ff777040ff29d1f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 24/25] fix: query_mutant_info.py: measure columns in bytes, as
 Dredd does

Dredd reports columns in bytes but the script sliced decoded text, so the
wrong text was shown for mutants on lines with non-ASCII characters.
---
 scripts/query_mutant_info.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/query_mutant_info.py b/scripts/query_mutant_info.py
index badea50..39e8550 100755
--- a/scripts/query_mutant_info.py
+++ b/scripts/query_mutant_info.py
@@ -69,15 +69,18 @@ def get_text_for_source_range(start_location: Dict[str, int],
     end_column = end_location['column']
     range_description = f"{filename_without_prefix}, {start_line}:{start_column}--{end_line}:{end_column}"
 
-    lines = open(original_source_code_filename, 'r').readlines()
+    # Columns are measured in bytes, so the lines of the file are handled as bytes.
+    with open(original_source_code_filename, 'r', encoding='utf-8', errors='surrogateescape') as source_file:
+        lines = [line.encode('utf-8', errors='surrogateescape') for line in source_file.readlines()]
     if start_line == end_line:
-        return True, range_description, "", lines[start_line - 1][start_column - 1:end_column - 1]
+        return (True, range_description, "",
+                lines[start_line - 1][start_column - 1:end_column - 1].decode('utf-8', errors='replace'))
     blank_prefix: str = " " * (start_column - 1)
-    source_range_text: str = lines[start_line - 1][start_column - 1:]
+    source_range_text: bytes = lines[start_line - 1][start_column - 1:]
     for i in range(start_line, end_line - 1):
         source_range_text += lines[i]
     source_range_text += lines[end_line - 1][0:end_column - 1]
-    return False, range_description, blank_prefix, source_range_text
+    return False, range_description, blank_prefix, source_range_text.decode('utf-8', errors='replace')
 
 
 def show_info_for_replace_expr(mutant_info: MutantInfo,
-- 
2.43.0


From 5c059f3ae7e9fbe845ea605ac78f3165b7e142ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:56 +0000
Subject: [PATCH 25/25] fix: do not mutate a condition that declares a
 constexpr variable

'if (constexpr int x = 5)' was turned into 'if (constexpr int
__dredd_replace_expr_bool_true(x, 0) = 5)', because the location of the
declared variable is not recorded when constexpr variables are skipped.
---
 src/libdredd/src/mutate_visitor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index fb6180d..06a2733 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -194,7 +194,10 @@ bool MutateVisitor::TraverseVarDecl(clang::VarDecl* var_decl) {
   if (var_decl->isConstexpr() || var_decl->hasAttr<clang::ConstInitAttr>()) {
     // Because Dredd's mutations occur dynamically, they cannot be applied to
     // C++ constexprs or variables that require constant initialization as
-    // these both require compile-time evaluation.
+    // these both require compile-time evaluation. The location of the variable
+    // is still recorded, because the variable might be declared in a condition,
+    // e.g. "if (constexpr int v = ...)".
+    var_decl_source_locations_.insert(var_decl->getLocation());
     return true;
   }
   if (!compiler_instance_->getLangOpts().CPlusPlus &&
-- 
2.43.0

