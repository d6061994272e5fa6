From 122129efba03f0bbb8f60e4a5db77c23bb6f0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 01/66] fix: show both halves of 128-bit values unambiguously
 in matcher messages

---
 src/easyMockFramework/src/easyMock_matcher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index ec659c2..622dd78 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -68,7 +68,7 @@ extern "C" int cmp_int128(const void *currentCall_ptr, const void *expectedCall_
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
@@ -85,7 +85,7 @@ extern "C" int cmp_uint128(const void *currentCall_ptr, const void *expectedCall
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
-- 
2.43.0


From b61b77b0d0bbccfa791f29b427dd58e8e0d2a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 02/66] fix: do not crash in cmp_str and cmp_deref_ptr_* when a
 pointer is null

---
 src/easyMockFramework/src/easyMock_matcher.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index 622dd78..5c8e009 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -22,6 +22,9 @@
   { \
     cType **currentCall_val = (cType **)currentCall_ptr; \
     cType **expectedCall_val = (cType **)expectedCall_ptr; \
+    if(*currentCall_val == NULL || *expectedCall_val == NULL) { \
+      return cmp_pointer(currentCall_ptr, expectedCall_ptr, paramName, errorMessage); \
+    } \
     return cmp_ ## typeName ((const void*)*currentCall_val, (const void*)*expectedCall_val, paramName, errorMessage); \
   }
 
@@ -45,13 +48,19 @@ extern "C" int cmp_str(const void *currentCall_ptr, const void *expectedCall_ptr
 {
   char* currentCall_val = *((char **)currentCall_ptr);
   char* expectedCall_val = *((char **)expectedCall_ptr);
-  if(std::strcmp(currentCall_val, expectedCall_val) == 0)
+  if(currentCall_val == expectedCall_val)
+  {
+    return 0;
+  }
+  if(currentCall_val && expectedCall_val && std::strcmp(currentCall_val, expectedCall_val) == 0)
   {
     return 0;
   }
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
   "Parameter '%s' has value '%s', was expecting '%s'",
-        paramName, currentCall_val, expectedCall_val);
+        paramName,
+        currentCall_val ? currentCall_val : "(null)",
+        expectedCall_val ? expectedCall_val : "(null)");
   return -1;
 }
 
-- 
2.43.0


From f0ca4f8c41ce81cee255bfdf7b702ae5171cb271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 03/66] fix: do not cut the message of cmp_char and cmp_u_char
 at a NUL character

---
 src/easyMockFramework/src/easyMock_matcher.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index 5c8e009..be21d53 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -3,8 +3,19 @@
 #include <cstring>
 #include <cstdint>
 #include <cinttypes>
+#include <string>
+
+/*
+ * The NUL character can't be printed with %c because it would terminate the
+ * error message.
+ */
+#define CHAR_TO_STR(c) ((c) == '\0' ? std::string("\\0") : std::string(1, (char)(c))).c_str()
+#define PRINT_AS_IS(v) (v)
 
 #define IMPLEMENT_MATCHER(typeName, cType, printFormat) \
+  IMPLEMENT_MATCHER_WITH_CONVERTER(typeName, cType, printFormat, PRINT_AS_IS)
+
+#define IMPLEMENT_MATCHER_WITH_CONVERTER(typeName, cType, printFormat, toPrint) \
   extern "C" DECLARE_MATCHER(typeName) \
   { \
     cType currentCall_val = *((cType *)currentCall_ptr); \
@@ -14,7 +25,7 @@
     } \
      std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR, \
      "Parameter '%s' has value '" printFormat "', was expecting '" printFormat "'", \
-           paramName, currentCall_val, expectedCall_val); \
+           paramName, toPrint(currentCall_val), toPrint(expectedCall_val)); \
     return -1; \
   } \
   \
@@ -29,8 +40,8 @@
   }
 
 
-IMPLEMENT_MATCHER(char, char, "%c");
-IMPLEMENT_MATCHER(u_char, unsigned char, "%c");
+IMPLEMENT_MATCHER_WITH_CONVERTER(char, char, "%s", CHAR_TO_STR);
+IMPLEMENT_MATCHER_WITH_CONVERTER(u_char, unsigned char, "%s", CHAR_TO_STR);
 IMPLEMENT_MATCHER(short, short, "%hi");
 IMPLEMENT_MATCHER(u_short, unsigned short, "%hu");
 IMPLEMENT_MATCHER(int, int, "%d");
-- 
2.43.0


From a2ebe6f4d09940962224ff7cc56d074849495191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 04/66] fix: separate the instance from the following argument
 of a member function mock

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3eab7b3..6e77117 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -72,6 +72,7 @@
 #define STRUCT_COMPARE_FIELD "STRUCT_COMPARE_FIELD"
 #define STRUCT_COMPARE_TYPE "STRUCT_COMPARE_TYPE"
 #define STRUCT_COMPARE_PRINTF_FORMAT "STRUCT_COMPARE_PRINTF_FORMAT"
+#define INSTANCE_SEPARATOR_SECTION "INSTANCE_SEPARATOR_SECTION"
 #define FUNCTION_PARAM_SECTION_SEPARATOR FUNCTION_PARAM_SECTION "_separator"
 #define FUNCTION_PARAM_PTR_SECTION_SEPARATOR FUNCTION_PARAM_PTR_SECTION "_separator"
 #define FUNCTION_PARAM_TYPE "FUNCTION_PARAM_TYPE"
@@ -368,7 +369,7 @@ IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
 IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
-                  IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", ") \
+                  IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
 
@@ -701,7 +702,7 @@ const char templateText[] =
         FUNCTION_EXPECT_AND_RETURN_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", "))
                 FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_HARDCODED_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, "easyMock_null")
               ");" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -710,7 +711,7 @@ const char templateText[] =
              FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE CARRIAGE_RETURN
              "{" CARRIAGE_RETURN
              "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", "))
                       FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
                   ");" CARRIAGE_RETURN
              "}" CARRIAGE_RETURN
@@ -1521,6 +1522,11 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     }
   }
   const Parameter::Vector& funParams = p_elemToMock->getFunctionsParameters();
+  if(parentData && (!funParams.empty() || !isRvVoid))
+  {
+    // The instance is followed by either a parameter or the value to return
+    functionSectionDict->AddSectionDictionary(INSTANCE_SEPARATOR_SECTION);
+  }
   generateFunctionParamSection(functionSectionDict, funParams);
   if(p_elemToMock->isVariadic())
   {
-- 
2.43.0


From beaa5767925d34346ddf2dcd0eb71212fdd2a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 05/66] fix: mock a C++ function in its own namespace, whatever
 else the header declares

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2d6c2b0..3f5c450 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -472,16 +472,10 @@ private:
       return getGlobalNamespace();
     }
     const clang::DeclContext* parentContext = declContext->getParent();
-    for(auto lookup : declContext->lookups())
+    if(declContext->isNamespace())
     {
-      for (auto namedDecl: lookup)
-      {
-        if(namedDecl->getKind() == clang::Decl::Kind::Namespace)
-        {
-          const auto enclosingNamespace = getNamespace(parentContext);
-          return std::make_shared<const Namespace>(namedDecl->getNameAsString(), enclosingNamespace);
-        }
-      }
+      const auto* namespaceDecl = static_cast<const clang::NamespaceDecl*>(declContext);
+      return std::make_shared<const Namespace>(namespaceDecl->getNameAsString(), getNamespace(parentContext));
     }
     return getNamespace(parentContext);
   }
-- 
2.43.0


From 5508abe5726447c0cd115db302575c5aa096a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 06/66] fix: fail when an output file cannot be written
 completely

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 src/easyMockGenerate/src/MainCodeGenerator.cpp               | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 6e77117..1319d55 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2416,9 +2416,10 @@ bool CodeGeneratorCTemplate::generateCodeToFile(const std::string &p_outDir, con
     goto closeFile;
   }
 closeFile:
-  if (f != nullptr)
+  if (f != nullptr && std::fclose(f) != 0 && rv)
   {
-    std::fclose(f);
+    std::fprintf(stderr, "Error closing %s: %s", outFilename.c_str(), strerror(errno));
+    rv = false;
   }
 
   return rv;
diff --git a/src/easyMockGenerate/src/MainCodeGenerator.cpp b/src/easyMockGenerate/src/MainCodeGenerator.cpp
index 186124c..4c9dddc 100644
--- a/src/easyMockGenerate/src/MainCodeGenerator.cpp
+++ b/src/easyMockGenerate/src/MainCodeGenerator.cpp
@@ -17,6 +17,5 @@ bool MainCodeGenerator::generateCode(const std::string &outDir, bool ignoreParse
     fprintf(stderr, "Parsing of %s failed.\n\r", m_filename.c_str());
     return false;
   }
-  m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
-  return true;
+  return m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
 }
-- 
2.43.0


From 7fc69ca9bc25b5054189cfe421044199b4fe7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 07/66] fix: keep signed char distinct from char

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 3f5c450..62d22ad 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -650,6 +650,10 @@ private:
     {
       cType = std::make_shared<CType>(CTYPE_VOID);
     }
+    else if(type.isSpecificBuiltinType(clang::BuiltinType::SChar))
+    {
+      cType = std::make_shared<CType>(CTYPE_SCHAR);
+    }
     else if(type.isCharType())
     {
 #if IS_CHAR_DEFAULT_UNSIGNED
-- 
2.43.0


From 9f4399e6a4492adbf204eda23390974e7fda550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 08/66] fix: model the boolean type instead of declaring it as
 unsigned int

---
 src/easyMockGenerate/include/EasyMockGenerateTypes.h | 8 ++++++++
 src/easyMockGenerate/src/EasyMockGenerateTypes.cpp   | 4 ++++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   | 2 +-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/EasyMockGenerateTypes.h b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
index 642ed23..8c74bd8 100644
--- a/src/easyMockGenerate/include/EasyMockGenerateTypes.h
+++ b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
@@ -73,6 +73,14 @@ typedef enum
    * \brief <tt> unsigned __int128 </tt> type
    */
   CTYPE_UINT128,
+  /*!
+   * \brief The C boolean type @c _Bool
+   */
+  CTYPE_BOOL,
+  /*!
+   * \brief The C++ boolean type @c bool
+   */
+  CTYPE_CPP_BOOL,
   /*!
    * \brief @c void type
    */
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index e9171d5..2febf6e 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -20,6 +20,8 @@ const char *easyMock_arrayCTypeStr[] =
   "long double",
   "__int128",
   "unsigned __int128",
+  "_Bool",
+  "bool",
   "void",
   "invalid"
 };
@@ -44,6 +46,8 @@ const char *easyMock_printfFormat[] =
   "Lf",
   "lf%lf",
   "Lf%Lf",
+  "d",
+  "d",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
 };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 62d22ad..72f5d17 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -697,7 +697,7 @@ private:
     }
     else if(isBoolType(type))
     {
-      cType = std::make_shared<CType>(CTYPE_INT);
+      cType = std::make_shared<CType>(m_LO->CPlusPlus ? CTYPE_CPP_BOOL : CTYPE_BOOL);
     }
     else if(isInt128Type(type))
     {
-- 
2.43.0


From 160e8426ee768e31f29edac9afae5087670805e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 09/66] fix: declare pointers to a function pointer typedef by
 the typedef

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 1319d55..be49d05 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1489,7 +1489,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   {
     const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
     const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
-    if(functionType)
+    if(functionType && !rvType->containsTypeDef())
     {
       generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
       generateExtraDecl(functionSectionDict, EXTRA_TOP_LEVEL_DECL_SECTION, EXTRA_TOP_DECL_TEMPLATE_NAME, functionType);
@@ -1514,7 +1514,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     {
       const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
       const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
-      if(functionType)
+      if(functionType && !rvType->containsTypeDef())
       {
         generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
         generateExtraDecl(returnValParamDict, EXTRA_DECL_SECTION, EXTRA_DECL_TEMPLATE_NAME, functionType);
@@ -1611,7 +1611,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
       const TypeItf *paramPtrPointedType = getRawType(nonQualifiedParamPtrType);
       const FunctionType *ft = paramPtrPointedType->asFunctionType();
-      if(ft)
+      if(ft && !paramType->containsTypeDef())
       {
         generateDeclarationOfUsedType(m_rootDictionary, ft, false);
         generateExtraDecl(functionParamSection, EXTRA_DECL_SECTION, EXTRA_DECL_TEMPLATE_NAME, ft);
@@ -2226,7 +2226,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         if(nonQualifiedFieldPtrType)
         {
           const FunctionType *ft = getRawType(nonQualifiedFieldPtrType)->asFunctionType();
-          if (ft)
+          if (ft && !fieldType->containsTypeDef())
           {
             generateDeclarationOfUsedType(m_rootDictionary, ft, false);
             generateExtraDecl(curFieldDict, EXTRA_DECL_SECTION, EXTRA_DECL_TEMPLATE_NAME, ft);
-- 
2.43.0


From 688e033c670df5a7b948ecbf4d87cefd6966c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 10/66] fix: require the size of the output of typedefs of void
 and of incomplete types

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index be49d05..f8e8df0 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1663,8 +1663,9 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
-        const ComposableType* composableTypeField = pointedType->asComposableType();
-        if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
+        const TypeItf* definedPointedType = getMostDefinedType(pointedType);
+        const ComposableType* composableTypeField = definedPointedType->asComposableType();
+        if(definedPointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_VOID_PTR_OUT_SECTION);
         }
-- 
2.43.0


From 5b5162357f8962d17c3dc3c025a26f14baedb9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 11/66] fix: keep volatile on the pointee of a parameter

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 72f5d17..e0ced02 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -511,6 +511,11 @@ private:
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
       }
+      else if(hasVolatilePointee(paramQualType))
+      {
+        // volatile isn't represented by the type model
+        setDeclaratorDeclareString(paramQualType, &p, paramQualType.getAsString());
+      }
       vectParam.push_back(std::move(p));
     }
 
@@ -1057,6 +1062,12 @@ private:
             kind == clang::BuiltinType::Int128;
   }
 
+  bool hasVolatilePointee(const clang::QualType &clangQualType)
+  {
+    const clang::QualType pointee = clangQualType->getPointeeType();
+    return !pointee.isNull() && (pointee.isLocalVolatileQualified() || hasVolatilePointee(pointee));
+  }
+
   uint64_t getArraySize(const clang::Type &type)
   {
     const clang::ConstantArrayType *constArrType = m_context->getAsConstantArrayType(type.getCanonicalTypeInternal());
-- 
2.43.0


From b86c6ec91769e4359f97ef751f050ff3c5ea5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 12/66] fix: keep the ellipsis of function pointer types

---
 .../include/CodeGeneratorCTemplate.h          |  1 +
 .../CodeGeneratorCTemplate.cpp                | 25 ++++++++++++-------
 src/easyMockGenerate/src/FunctionType.cpp     |  4 +++
 .../src/LLVMParser/LLVMParser.cpp             |  1 +
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 6f67809..e9e570e 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -76,6 +76,7 @@ private:
   void generateFunctionSection(ctemplate::TemplateDictionary* p_parentDictionary, const std::shared_ptr<const FunctionDeclaration> &f);
   void generateFunctionAttributes(const std::shared_ptr<const FunctionDeclaration> &f, ctemplate::TemplateDictionary *functionSectionDict);
   void generateFunctionParamSection(ctemplate::TemplateDictionary *dict, const Parameter::Vector& functionParam);
+  void generateVariadicSection(ctemplate::TemplateDictionary *dict, const Function& function);
   //p_uniquePrepend and p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
   void generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
   void generateBodyStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const char* p_sectionToAdd, const ComposableType *p_structType, const ComposableFieldItf *p_curField, const ComposableFieldItf *p_previousField, std::string p_uniquePrepend, std::string p_declPrepend);
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f8e8df0..d7da5ee 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1528,17 +1528,23 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     functionSectionDict->AddSectionDictionary(INSTANCE_SEPARATOR_SECTION);
   }
   generateFunctionParamSection(functionSectionDict, funParams);
-  if(p_elemToMock->isVariadic())
+  generateVariadicSection(functionSectionDict, *p_elemToMock);
+}
+
+void CodeGeneratorCTemplate::generateVariadicSection(ctemplate::TemplateDictionary *p_dict, const Function& p_function)
+{
+  if(!p_function.isVariadic())
   {
-    ctemplate::TemplateDictionary *variadicSection = functionSectionDict->AddSectionDictionary(VARIADIC_SECTION);
-    std::string variadicString;
-    if(funParams.size() > 0)
-    {
-      variadicString.append(", ");
-    }
-    variadicString.append("...");
-    variadicSection->SetValue(VARIADIC_VAR, variadicString);
+    return;
+  }
+  ctemplate::TemplateDictionary *variadicSection = p_dict->AddSectionDictionary(VARIADIC_SECTION);
+  std::string variadicString;
+  if(!p_function.getFunctionsParameters().empty())
+  {
+    variadicString.append(", ");
   }
+  variadicString.append("...");
+  variadicSection->SetValue(VARIADIC_VAR, variadicString);
 }
 
 void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *dict, const char *sectionName, const char *templateFileName, const FunctionType *functionType)
@@ -1549,6 +1555,7 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   extraDeclDict->SetFilename(templateFileName);
 
   generateFunctionParamSection(extraDeclDict, functionType->getFunctionsParameters());
+  generateVariadicSection(extraDeclDict, *functionType);
 
   const ReturnValue *rv = functionType->getReturnValue();
   const TypeItf *returnValueType = rv->getType();
diff --git a/src/easyMockGenerate/src/FunctionType.cpp b/src/easyMockGenerate/src/FunctionType.cpp
index 0b15cb5..f89a3cb 100644
--- a/src/easyMockGenerate/src/FunctionType.cpp
+++ b/src/easyMockGenerate/src/FunctionType.cpp
@@ -39,6 +39,10 @@ std::string FunctionType::getDeclarationPostfix(bool p_naked) const
     returnStr.append(p.getDeclareString());
     firstParam = false;
   }
+  if(isVariadic())
+  {
+    returnStr.append(firstParam ? "..." : ", ...");
+  }
   returnStr.push_back(')');
   return returnStr;
 }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index e0ced02..69bad54 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -771,6 +771,7 @@ private:
       vectParam.push_back(std::move(p));
     }
     auto f = std::make_shared<FunctionType>(std::move(rv), std::move(vectParam));
+    f->setVariadic(fp->isVariadic());
 
     return f;
   }
-- 
2.43.0


From 5b14013e72950d1bd21548643dfe322f397a23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 13/66] fix: keep restrict on the pointee of a parameter

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 69bad54..5bf22e0 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -511,9 +511,9 @@ private:
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
       }
-      else if(hasVolatilePointee(paramQualType))
+      else if(hasUnmodelledPointeeQualifier(paramQualType))
       {
-        // volatile isn't represented by the type model
+        // volatile and restrict aren't represented by the type model
         setDeclaratorDeclareString(paramQualType, &p, paramQualType.getAsString());
       }
       vectParam.push_back(std::move(p));
@@ -1063,10 +1063,10 @@ private:
             kind == clang::BuiltinType::Int128;
   }
 
-  bool hasVolatilePointee(const clang::QualType &clangQualType)
+  bool hasUnmodelledPointeeQualifier(const clang::QualType &clangQualType)
   {
     const clang::QualType pointee = clangQualType->getPointeeType();
-    return !pointee.isNull() && (pointee.isLocalVolatileQualified() || hasVolatilePointee(pointee));
+    return !pointee.isNull() && (pointee.isLocalVolatileQualified() || pointee.isLocalRestrictQualified() || hasUnmodelledPointeeQualifier(pointee));
   }
 
   uint64_t getArraySize(const clang::Type &type)
-- 
2.43.0


From 77f235bf4810eee05e06205e6e3c9b71f66c2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 14/66] fix: accept function pointers declared without a
 prototype

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 5bf22e0..aeca0ce 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -619,7 +619,7 @@ private:
     {
       type = getFromUnionType(clangType, structKnownType, isEmbeddedInOtherType);
     }
-    else if (clangType.isFunctionProtoType())
+    else if (clangType.isFunctionType())
     {
       type = getFromFunctionPrototype(clangType, structKnownType);
     }
@@ -753,14 +753,15 @@ private:
    */
   std::shared_ptr<TypeItf> getFromFunctionPrototype(const clang::Type &type, structKnownTypeMap &structKnownType)
   {
+    // Null when the function is declared without a prototype i.e. "int (*)()" in C
     const clang::FunctionProtoType *fp = type.getAs<clang::FunctionProtoType>();
 
-    const clang::QualType &rvQualType = fp->getReturnType();
+    const clang::QualType rvQualType = type.getAs<clang::FunctionType>()->getReturnType();
 
     std::shared_ptr<TypeItf> rvType = getEasyMocktype(rvQualType, structKnownType, false);
     ReturnValue rv(std::move(rvType));
 
-    unsigned nbParams = fp->getNumParams();
+    unsigned nbParams = fp ? fp->getNumParams() : 0;
     Parameter::Vector vectParam;
     for(unsigned paramIdx = 0; paramIdx < nbParams; paramIdx++)
     {
@@ -771,7 +772,7 @@ private:
       vectParam.push_back(std::move(p));
     }
     auto f = std::make_shared<FunctionType>(std::move(rv), std::move(vectParam));
-    f->setVariadic(fp->isVariadic());
+    f->setVariadic(fp && fp->isVariadic());
 
     return f;
   }
@@ -1043,7 +1044,7 @@ private:
       const clang::QualType &pointeeType = type.getPointeeType();
       return isFunctionType(pointeeType);
     }
-    return type.isFunctionProtoType();
+    return type.isFunctionType();
   }
 
   bool isBoolType(const clang::Type &type)
-- 
2.43.0


From 8e981d0b1ea96cef30642189ac4489faad809d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 15/66] fix: take relative -i and -o paths from the --cwd
 directory

---
 .../src/CmdLineParser/CmdLineParser.cpp       | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index f6e7819..f35f205 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -51,12 +51,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_regular_file(opt.m_inputHeaderFile))
-        {
-          opt.m_errorMessage = g_inputFileIsntRegular;
-          opt.m_inputHeaderFile.clear();
-          return opt;
-        }
         argIdx++;
       }
     }
@@ -74,12 +68,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_directory(opt.m_outputDir))
-        {
-          opt.m_errorMessage = g_outputDirIsntDir;
-          opt.m_outputDir.clear();
-          return opt;
-        }
         argIdx++;
       }
     }
@@ -233,6 +221,20 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
     opt.m_errorMessage = g_errorOutputMissing;
     return opt;
   }
+  // Relative paths are taken from the directory given to --cwd, wherever that one stands in the arguments
+  const fs::path baseDir(opt.m_changeWorkingDir);
+  if(!fs::is_regular_file(baseDir / opt.m_inputHeaderFile))
+  {
+    opt.m_errorMessage = g_inputFileIsntRegular;
+    opt.m_inputHeaderFile.clear();
+    return opt;
+  }
+  if(!fs::is_directory(baseDir / opt.m_outputDir))
+  {
+    opt.m_errorMessage = g_outputDirIsntDir;
+    opt.m_outputDir.clear();
+    return opt;
+  }
 
   return opt;
 }
-- 
2.43.0


From 632f6d3f2fa528a86ced2c275a194eb0531d7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 16/66] fix: refuse -i and -o paths whose status cannot be read
 instead of crashing

---
 src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index f35f205..d93b789 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -1,6 +1,7 @@
 #include "CmdLineParser.h"
 
 #include <string>
+#include <system_error>
 
 #if __has_include(<filesystem>)
 #include <filesystem>
@@ -223,13 +224,14 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   }
   // Relative paths are taken from the directory given to --cwd, wherever that one stands in the arguments
   const fs::path baseDir(opt.m_changeWorkingDir);
-  if(!fs::is_regular_file(baseDir / opt.m_inputHeaderFile))
+  std::error_code ec; // Not being able to get the status isn't fatal
+  if(!fs::is_regular_file(baseDir / opt.m_inputHeaderFile, ec))
   {
     opt.m_errorMessage = g_inputFileIsntRegular;
     opt.m_inputHeaderFile.clear();
     return opt;
   }
-  if(!fs::is_directory(baseDir / opt.m_outputDir))
+  if(!fs::is_directory(baseDir / opt.m_outputDir, ec))
   {
     opt.m_errorMessage = g_outputDirIsntDir;
     opt.m_outputDir.clear();
-- 
2.43.0


From f3c7fbc4bd2eeae283e0daa40c35549dfa082e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 17/66] fix: refuse -i and -o without a value wherever they
 stand

---
 .../src/CmdLineParser/CmdLineParser.cpp       | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index d93b789..08afb09 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -38,39 +38,35 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   for(argIdx = 1; argv[argIdx] != nullptr && argIdx < argc; argIdx++)
   {
     const std::string currentParam(argv[argIdx]);
-    if(currentParam == g_inputHeaderParam && hasOneMoreArgument(argIdx, argc))
+    if(currentParam == g_inputHeaderParam)
     {
       if(!opt.m_inputHeaderFile.empty())
       {
         opt.m_errorMessage = g_minusIParameterGivenTwice;
         return opt;
       }
-      opt.m_inputHeaderFile = std::string(argv[argIdx+1]);
-      if(opt.m_inputHeaderFile[0] == '-')
-      {
-        opt.m_inputHeaderFile.clear();
-      }
-      else
+      if(!hasOneMoreArgument(argIdx, argc) || !nextArgumentValid(argIdx, argv))
       {
-        argIdx++;
+        opt.m_errorMessage = g_errorInputMissing;
+        return opt;
       }
+      opt.m_inputHeaderFile = std::string(argv[argIdx+1]);
+      argIdx++;
     }
-    else if(currentParam == g_outputDirParam && hasOneMoreArgument(argIdx, argc))
+    else if(currentParam == g_outputDirParam)
     {
       if(!opt.m_outputDir.empty())
       {
         opt.m_errorMessage = g_minusOParameterGivenTwice;
         return opt;
       }
-      opt.m_outputDir = std::string(argv[argIdx+1]);
-      if(opt.m_outputDir[0] == '-')
-      {
-        opt.m_outputDir.clear();
-      }
-      else
+      if(!hasOneMoreArgument(argIdx, argc) || !nextArgumentValid(argIdx, argv))
       {
-        argIdx++;
+        opt.m_errorMessage = g_errorOutputMissing;
+        return opt;
       }
+      opt.m_outputDir = std::string(argv[argIdx+1]);
+      argIdx++;
     }
     else if(currentParam == g_mockOnlyParam)
     {
-- 
2.43.0


From e677f02f79059f9bae4a317e6acc0e6fd2b486d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 18/66] fix: include the generated header by its name whatever
 the header's extension

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index d7da5ee..a87b847 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -52,6 +52,7 @@
 #define CARRIAGE_RETURN "\n"
 
 #define MOCKED_HEADER_FILENAME "MOCKED_HEADER_FILENAME"
+#define MOCKED_FILE_NAME_WITHOUT_EXT "MOCKED_FILE_NAME_WITHOUT_EXT"
 #define MOCKED_FILE_NAME_WITHOUT_EXT_UPPER "MOCKED_FILE_NAME_WITHOUT_EXT_UPPER"
 #define FUNCTION_SECTION "FUNCTION_SECTION"
 #define FUNCTION_PARAM_SECTION "FUNCTION_PARAM_SECTION"
@@ -493,7 +494,7 @@ const char templateText[] =
         "#include <tuple>" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
-        "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_HEADER_FILENAME) "\"" CARRIAGE_RETURN
+        "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_FILE_NAME_WITHOUT_EXT) ".h\"" CARRIAGE_RETURN
         CARRIAGE_RETURN
 
         FUNCTION_INIT_ALL_MOCK_SIGNATURE ";" CARRIAGE_RETURN
@@ -1304,6 +1305,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   m_generateForwardTypes.clear();
   m_lateDeclaration.clear();
   m_rootDictionary->SetValue(MOCKED_HEADER_FILENAME, p_mockedHeader);
+  m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT, p_mockedHeader.substr(0, p_mockedHeader.find_last_of(".")));
 
   const auto& fList = p_ctxt.getElementToMock();
   std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
-- 
2.43.0


From 0f8ca3e305534d07fb34610ecace62646708bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 19/66] fix: accept functions declared under a #line directive

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index aeca0ce..172f58e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -150,8 +150,8 @@ public:
       return nullptr;
     }
     std::string originFileFullInfo = func->getLocation().printToString(*m_SM);
-    size_t posColumn = originFileFullInfo.find_first_of(':');
-    std::string originFile = originFileFullInfo.substr(0,posColumn);
+    // The position above follows the #line directives. Those can name a file which doesn't exist.
+    std::string originFile = m_SM->getFilename(m_SM->getExpansionLoc(func->getLocation())).str();
     boost::filesystem::path originCanon = boost::filesystem::canonical(originFile);
 
     bool isFromMainFile = m_mainFile == originCanon;
-- 
2.43.0


From 557191caf21cc6379a919c936bd5c973a7dd9850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 20/66] fix: do not mock a function that another declaration
 defines or makes static, inline or noreturn

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp | 11 ++++++++++-
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp    |  8 +++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index a87b847..ae01569 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1313,6 +1313,15 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
+  // The functions with a definition, whichever of their declarations comes first
+  std::unordered_set<std::size_t> definedElements;
+  for (const auto& fun: fList)
+  {
+    if(fun->doesThisDeclarationHasABody())
+    {
+      definedElements.insert(fun->getRawHash());
+    }
+  }
   for (const auto& fun: fList)
   {
 
@@ -1320,7 +1329,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
        * In the case where the used types are generated, it is ok to create a mock for the function
        * since the original header is not used by the mock.
        */
-      if((fun->isInlined() || fun->doesThisDeclarationHasABody() || fun->isStatic()) &&
+      if((fun->isInlined() || definedElements.count(fun->getRawHash()) != 0 || fun->isStatic()) &&
           !m_generateUsedType)
       {
         continue;
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 172f58e..0407994 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -201,9 +201,10 @@ public:
     {
       parentData->addFunction(f);
     }
-    bool isInline = func->isInlined();
+    // Any of the declarations can make the function inline or static, whichever one is being visited.
+    bool isInline = std::any_of(func->redecls_begin(), func->redecls_end(), [](const clang::FunctionDecl* redecl) { return redecl->isInlined(); });
+    bool isStatic = std::any_of(func->redecls_begin(), func->redecls_end(), [](const clang::FunctionDecl* redecl) { return redecl->isStatic(); });
     bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody();
-    bool isStatic = func->isStatic();
     f->setVariadic(func->isVariadic());
     f->setInlined(isInline);
     f->setIsStatic(isStatic);
@@ -258,7 +259,8 @@ private:
 
       easyMockFun.addAttribute(std::move(functionAttribute));
     }
-    if(clangFunc->isNoReturn())
+    auto isNoReturn = [](const clang::FunctionDecl* redecl) { return redecl->isNoReturn(); };
+    if(std::any_of(clangFunc->redecls_begin(), clangFunc->redecls_end(), isNoReturn))
     {
       std::string noreturn{"noreturn"};
       easyMockFun.addAttribute(std::move(noreturn));
-- 
2.43.0


From 99188026fe76f20cb8c5c50001d4bf4909dc5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 21/66] fix: mock a function declared again with other
 compatible types only once

---
 .../include/FunctionDeclaration.h               | 15 +++++++++++++++
 .../CodeGeneratorCTemplate.cpp                  | 13 ++++++++-----
 .../src/FunctionDeclaration.cpp                 | 13 ++++++++++++-
 .../src/LLVMParser/LLVMParser.cpp               | 17 +++++++++++++++++
 4 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/include/FunctionDeclaration.h b/src/easyMockGenerate/include/FunctionDeclaration.h
index 510de1b..9912e3a 100644
--- a/src/easyMockGenerate/include/FunctionDeclaration.h
+++ b/src/easyMockGenerate/include/FunctionDeclaration.h
@@ -76,6 +76,20 @@ public:
    */
   std::shared_ptr<const Namespace> getNamespace() const;
 
+  /*!
+   * \brief Returns a text that tells the function from every other one.
+   *
+   * It is the same for all the declarations of a function, however their types are spelled.
+   * It is empty when it isn't known. It takes no part in the comparison and the hash.
+   */
+  const std::string& getSignature() const noexcept;
+
+  /*!
+   * \brief Sets the text that tells the function from every other one.
+   * \see getSignature
+   */
+  void setSignature(std::string p_signature) noexcept;
+
   virtual ~FunctionDeclaration();
   static const FunctionDeclaration& toFunctionDeclaration(const ElementToMock& elem)
   {
@@ -85,6 +99,7 @@ private:
   bool m_doesThisDeclarationHasBody;
   std::size_t m_cachedHash;
   std::shared_ptr<const Namespace> m_namespace;
+  std::string m_signature;
 };
 
 #endif /* FUNCTIONDECLARATION_H */
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ae01569..3673742 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1312,6 +1312,11 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
   std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
+  // The declarations of a function can use other, compatible, types i.e. "int f(int[2]); int f(int *);"
+  auto getFunctionId = [](const FunctionDeclaration& fun)
+  {
+    return fun.getSignature().empty() ? fun.getRawHash() : std::hash<std::string>{}(fun.getSignature());
+  };
   std::unordered_set<std::size_t> generatedElements;
   // The functions with a definition, whichever of their declarations comes first
   std::unordered_set<std::size_t> definedElements;
@@ -1319,7 +1324,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   {
     if(fun->doesThisDeclarationHasABody())
     {
-      definedElements.insert(fun->getRawHash());
+      definedElements.insert(getFunctionId(*fun));
     }
   }
   for (const auto& fun: fList)
@@ -1329,7 +1334,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
        * In the case where the used types are generated, it is ok to create a mock for the function
        * since the original header is not used by the mock.
        */
-      if((fun->isInlined() || definedElements.count(fun->getRawHash()) != 0 || fun->isStatic()) &&
+      if((fun->isInlined() || definedElements.count(getFunctionId(*fun)) != 0 || fun->isStatic()) &&
           !m_generateUsedType)
       {
         continue;
@@ -1367,12 +1372,10 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
       {
         continue;
       }
-      std::size_t rawHash = fun->getRawHash();
-      if(generatedElements.find(rawHash) != generatedElements.end())
+      if(!generatedElements.insert(getFunctionId(*fun)).second)
       {
         continue;
       }
-      generatedElements.insert(rawHash);
       generateFunctionSection(m_rootDictionary, fun);
   }
 
diff --git a/src/easyMockGenerate/src/FunctionDeclaration.cpp b/src/easyMockGenerate/src/FunctionDeclaration.cpp
index 45a3c39..816a661 100644
--- a/src/easyMockGenerate/src/FunctionDeclaration.cpp
+++ b/src/easyMockGenerate/src/FunctionDeclaration.cpp
@@ -14,7 +14,8 @@ FunctionDeclaration::FunctionDeclaration(std::string p_functionName, ReturnValue
     ElementToMock{},
     m_doesThisDeclarationHasBody{false},
     m_cachedHash{0},
-    m_namespace{std::move(p_namespace)}
+    m_namespace{std::move(p_namespace)},
+    m_signature{}
 {
 }
 
@@ -55,6 +56,16 @@ std::shared_ptr<const Namespace> FunctionDeclaration::getNamespace() const
   return m_namespace;
 }
 
+const std::string& FunctionDeclaration::getSignature() const noexcept
+{
+  return m_signature;
+}
+
+void FunctionDeclaration::setSignature(std::string p_signature) noexcept
+{
+  m_signature = std::move(p_signature);
+}
+
 bool FunctionDeclaration::operator==(const FunctionDeclaration& other) const
 {
   bool funEqual = Function::operator==(other);
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 0407994..c2ce1b6 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -160,6 +160,22 @@ public:
       return nullptr;
     }
 
+    // In C, a function is known by its name only.
+    std::string signature = func->getQualifiedNameAsString();
+    if(m_LO->CPlusPlus)
+    {
+      signature.append(" ").append(func->getCanonicalDecl()->getType().getCanonicalType().getAsString());
+    }
+    /*
+     * A function declared without a prototype in C, i.e. "int f();", takes the one of another declaration if there is any.
+     */
+    auto hasPrototype = [](const clang::FunctionDecl* redecl) { return redecl->hasPrototype(); };
+    if(!hasPrototype(func))
+    {
+      auto redecl = std::find_if(func->redecls_begin(), func->redecls_end(), hasPrototype);
+      func = redecl == func->redecls_end() ? func : *redecl;
+    }
+
     ReturnValue rv = getFunctionReturnValue(func);
     Parameter::Vector param = getFunctionParameters(func);
 
@@ -210,6 +226,7 @@ public:
     f->setIsStatic(isStatic);
     f->setDoesThisDeclarationHasABody(doesThisDeclHasABody);
     f->setOriginFile(originFileFullInfo);
+    f->setSignature(std::move(signature));
     f->setClassConst(isClassConst);
     setFunctionAttribute(func, *f);
 
-- 
2.43.0


From f4786d4c39833fdaee6029cd84f7faee7b823b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 22/66] fix: take the return type of functions declared through
 a typedef or after another declarator from the type

---
 .../src/LLVMParser/LLVMParser.cpp             | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index c2ce1b6..7947c2e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -427,6 +427,15 @@ private:
     auto type = getEasyMocktype(rvQualType, structKnownType, false);
     ReturnValue rv(std::move(type));
 
+    /*
+     * When the function is declared through a typedef of a function type or after another declarator,
+     * i.e. "fun_t f;" or "int a, *f(void);", what is written before its name isn't its return type.
+     */
+    if(!func->getFunctionTypeLoc() || followsOtherDeclarator(func))
+    {
+      return rv;
+    }
+
     /*
      * clang::QualType doesn't have any SourceRange information. The source range is approximated by taking
      * the very beginning of the function declaration and the beginning position of the function name.
@@ -484,6 +493,20 @@ private:
     return rv;
   }
 
+  bool followsOtherDeclarator(const clang::FunctionDecl* func)
+  {
+    const clang::Decl* previousDecl = nullptr;
+    for(const clang::Decl* decl : func->getLexicalDeclContext()->decls())
+    {
+      if(decl == func)
+      {
+        break;
+      }
+      previousDecl = decl;
+    }
+    return previousDecl && llvm::isa<clang::DeclaratorDecl>(previousDecl) && previousDecl->getBeginLoc() == func->getBeginLoc();
+  }
+
   std::shared_ptr<const Namespace> getNamespace(const clang::DeclContext* declContext)
   {
     if(!declContext)
-- 
2.43.0


From 725c1542e18606683d143f9ee47c8152b615cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 23/66] fix: parse the header as C++ with --mock-cpp whatever
 its extension

---
 .../src/LLVMParser/LLVMParser.cpp              | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7947c2e..66263e5 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -94,7 +94,6 @@ struct ParserConfig
   const boost::filesystem::path& mainFile;
   const IgnoreFunList& ignoreFunList;
   bool parseIncludedFunctions;
-  bool forceCpp;
 };
 
 /*!
@@ -1285,15 +1284,6 @@ public:
   {
   }
 
-  virtual bool PrepareToExecuteAction(clang::CompilerInstance &CI) override
-  {
-    if(m_parserConfig.forceCpp)
-    {
-      CI.getInvocation().LangOpts->CPlusPlus = 1;
-    }
-    return true;
-  }
-
   virtual std::unique_ptr<clang::ASTConsumer> CreateASTConsumer(clang::CompilerInstance& CI, clang::StringRef file) override
   {
     clang::Preprocessor& PP = CI.getPreprocessor();
@@ -1337,6 +1327,11 @@ CodeParser_errCode LLVMParser::getElementToMockContext(ElementToMockContext& p_c
   llvm::Twine twineDir(dir);
   //Place holder variable to add default hardcoded arguments to the tool if we need to
   std::vector<std::string> LLVMExtraArgs({});
+  if(m_forceCpp)
+  {
+    // Whatever the extension of the header
+    LLVMExtraArgs.emplace_back("-xc++");
+  }
   for(const std::string& extraArg: m_flags)
   {
     LLVMExtraArgs.emplace_back(extraArg);
@@ -1364,8 +1359,7 @@ CodeParser_errCode LLVMParser::getElementToMockContext(ElementToMockContext& p_c
       m_ignoreTypeFieldList,
       fullPath,
       m_ignoreFunList,
-      m_parseIncludedFunctions,
-      m_forceCpp
+      m_parseIncludedFunctions
     };
   int rv = tool.run(newFunctionDeclFrontendAction(p_ctxt, parserConfig).get());
   return rv == 0 ? cp_OK : cp_ERROR;
-- 
2.43.0


From d233a9379b3f5086ef4ce6e1d052624810790fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 24/66] fix: keep enumerators of equal, negative and 64 bit
 values when generating types

---
 src/easyMockGenerate/include/Enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 714131e..5608992 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -25,7 +25,7 @@ public:
   /*!
    * \brief Type used to store enum values
    */
-  using listOfValuesType = std::map<unsigned int, std::string>;
+  using listOfValuesType = std::multimap<int64_t, std::string>;
 
   /*!
    * \brief Creates an enum
-- 
2.43.0


From 89013d7577c895e99e4693dd0edffa1d5739f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 25/66] fix: generate an enum and a typedef of the same name

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3673742..c926983 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -168,7 +168,7 @@
 #define GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_NAME_VAR")
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_VAR "GENERATED_TYPE_ENUM_VALUE_VALUE_VAR"
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_VALUE_VAR")
-#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
+#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_enum_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
 
 #define COMPOSABLE_TYPE_DECLARE_TYPE_SECTION "COMPOSABLE_TYPE_DECLARE_TYPE_SECTION"
 #define TYPE_DECLARATION_VAR "TYPE_DECLARATION_VAR"
-- 
2.43.0


From 4b2ba11b96866a6e7e8d8e07fda1a4b41e06c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 26/66] fix: allow structs with const members to be returned

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c926983..ce1ba28 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -676,7 +676,10 @@ const char templateText[] =
         )
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION)
-        IF_RETURN_VALUE("    default_res = currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
+        IF_RETURN_VALUE(
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&default_res, (void*)&currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ", sizeof(default_res));" CARRIAGE_RETURN)
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    default_res = currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
+        )
         CARRIAGE_RETURN
         "    CSTRING_AUTOCLEAN(currentCall) = easyMock_popCurrentCall();" CARRIAGE_RETURN
         "    if(checkCallsOrder)" CARRIAGE_RETURN
@@ -744,7 +747,10 @@ const char templateText[] =
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
 
-        IF_RETURN_VALUE("    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = to_return;" CARRIAGE_RETURN CARRIAGE_RETURN)
+        IF_RETURN_VALUE(
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) ", (void*)&to_return, sizeof(to_return));" CARRIAGE_RETURN CARRIAGE_RETURN)
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = to_return;" CARRIAGE_RETURN CARRIAGE_RETURN)
+        )
         "    MockedFunction_addExpectedCall(&" TEMPLATE_MOCKED_FUN_CLASS ", &mockedData);" CARRIAGE_RETURN
         "    easyMock_addCall(MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -1514,6 +1520,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   if (!isRvVoid)
   {
     ctemplate::TemplateDictionary *returnValParamDict = functionSectionDict->AddSectionDictionary(FUNCTION_RETURN_VALUE_PARAM_SECTION);
+    returnValParamDict->AddSectionDictionary(m_isCpp ? CPP_ONLY_SECTION : C_ONLY_SECTION);
 
     if (rvType->isReference())
     {
-- 
2.43.0


From 10fe07e5d4e44e0a9f2b123fdc264aa7592ef7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 27/66] fix: accept bit-fields of an enum type and generate the
 types of bit-fields

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp   |  4 ++--
 src/easyMockGenerate/src/ComposableBitfield.cpp     | 13 ++-----------
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp  |  7 -------
 3 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ce1ba28..2a625dc 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2048,9 +2048,9 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
               generateDeclarationOfUsedType(p_parentDictionary, composableFieldType, false);
             }
           },
-          [](const auto &)
+          [this, &p_parentDictionary](const auto &composableBitfield)
           {
-            //Nothing to do for types other than ComposableField
+            generateDeclarationOfUsedType(p_parentDictionary, composableBitfield.getType(), false);
           }
         },fItf);
       }
diff --git a/src/easyMockGenerate/src/ComposableBitfield.cpp b/src/easyMockGenerate/src/ComposableBitfield.cpp
index f0702c7..15a3b8b 100644
--- a/src/easyMockGenerate/src/ComposableBitfield.cpp
+++ b/src/easyMockGenerate/src/ComposableBitfield.cpp
@@ -16,17 +16,8 @@ ComposableFieldItf{std::move(p_type), std::move(p_name)},
 m_size{p_size},
 m_cachedHash{0}
 {
-  TypeItf* typeItf = getType();
-  assert(typeItf);
-  TypedefType* typedefType = typeItf->asTypedefType();
-  if(typedefType)
-  {
-    assert(typedefType->getMostDefinedTypee()->isCType());
-  }
-  else
-  {
-    assert(typeItf->isCType());
-  }
+  assert(getType());
+  assert(getType()->getRawType()->isCType() || getType()->getRawType()->isEnum());
 }
 
 bool ComposableBitfield::operator==(const ComposableBitfield &other) const
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 66263e5..36b42f8 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -946,13 +946,6 @@ private:
 
         if (FD->isBitField())
         {
-          TypedefType *typedefFieldType = fieldType->asTypedefType();
-          if (!fieldType->isCType() && (typedefFieldType && !typedefFieldType->getMostDefinedTypee()->isCType()))
-          {
-            fprintf(stderr, "Type must be CType for bitfields");
-            typePtr->dump();
-            assert(false);
-          }
           unsigned bitWidth = FD->getBitWidthValue(*m_context);
           assert(bitWidth < 256);
           sType->addField(ComposableBitfield{std::move(fieldType), fName, static_cast<uint8_t>(bitWidth)});
-- 
2.43.0


From 024ec4698df738e1ef1a0eedb71feead447f199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 28/66] fix: generate the types reached through pointers after
 the types they contain

---
 .../include/CodeGeneratorCTemplate.h          |   6 ++
 .../CodeGeneratorCTemplate.cpp                | 100 ++++++++++++++++--
 2 files changed, 100 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index e9e570e..70225ac 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -117,6 +117,12 @@ private:
   EasyMock::HashablePointerUnorderedSet<const TypedefType*> m_generatedTypeTypedDefSection;
   EasyMock::HashablePointerUnorderedSet<const Enum*> m_generatedTypeEnumSection;
   std::vector<const ComposableType*> m_lateDeclaration;
+  std::unordered_set<std::string> m_generatedComposableTypes;
+  std::vector<const TypeItf*> m_pointedTypesToGenerate;
+  unsigned m_nbComposableTypeBeingGenerated{0};
+  std::unordered_map<std::string, const ComposableType*> m_completeComposableTypes;
+  void registerCompleteComposableTypes(const TypeItf* p_type);
+  void generateDeclarationOfIncompleteFields(const ComposableType* p_composableType);
 };
 
 #endif /* CODEGENERATORCTEMPLATE_H */
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 2a625dc..ec798c5 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1014,13 +1014,17 @@ const TypedefType* getTypeDefType(const TypeItf* p_type)
   return nullptr;
 }
 
-bool isComposableTypeComplete(const ComposableType* composableType)
+/*
+ * p_generatedTypes contains the types that are declared completely by now
+ */
+bool isComposableTypeComplete(const ComposableType* composableType, const std::unordered_set<std::string>& p_generatedTypes)
 {
   for(const auto& field : composableType->getContainedFields())
   {
-    bool isIncompleteType = std::visit([](auto&& field) -> bool
+    bool isIncompleteType = std::visit([&p_generatedTypes](auto&& field) -> bool
       {
-        return field.getType()->unqualify()->isIncompleteType();
+        const IncompleteType* incompleteType = field.getType()->unqualify()->asIncompleteType();
+        return incompleteType && p_generatedTypes.find(incompleteType->getComposableTypeKeyword() + incompleteType->getName()) == p_generatedTypes.end();
       },
       field
     );
@@ -1310,6 +1314,10 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   m_generateTypes.clear();
   m_generateForwardTypes.clear();
   m_lateDeclaration.clear();
+  m_generatedComposableTypes.clear();
+  m_completeComposableTypes.clear();
+  m_pointedTypesToGenerate.clear();
+  m_nbComposableTypeBeingGenerated = 0;
   m_rootDictionary->SetValue(MOCKED_HEADER_FILENAME, p_mockedHeader);
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT, p_mockedHeader.substr(0, p_mockedHeader.find_last_of(".")));
 
@@ -1385,9 +1393,10 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
       generateFunctionSection(m_rootDictionary, fun);
   }
 
-  for(const auto composableType : m_lateDeclaration)
+  // More can be added while those are generated
+  for(size_t lateIdx = 0; lateIdx < m_lateDeclaration.size(); ++lateIdx)
   {
-    generateDeclarationOfUsedType(m_rootDictionary, composableType, true);
+    generateDeclarationOfUsedType(m_rootDictionary, m_lateDeclaration[lateIdx], true);
   }
 }
 
@@ -2014,7 +2023,12 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
   }
   else if(composableType)
   {
-    if(isComposableTypeComplete(composableType) || p_generateIncomplete)
+    if(m_nbComposableTypeBeingGenerated == 0)
+    {
+      registerCompleteComposableTypes(composableType);
+    }
+    generateDeclarationOfIncompleteFields(composableType);
+    if(isComposableTypeComplete(composableType, m_generatedComposableTypes) || p_generateIncomplete)
     {
       generateForwardDeclaration(composableType);
 
@@ -2026,6 +2040,7 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
        * 1. Generate the contained field's type
        */
       const auto& containedField = composableType->getContainedFields();
+      m_nbComposableTypeBeingGenerated++;
       for (const auto& fItf: containedField)
       {
         std::visit(overloaded
@@ -2067,9 +2082,20 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
         finalTypeName = getAnonymousTypedefUniqueName(p_type);
       }
       guardName.append(finalTypeName);
+      m_generatedComposableTypes.insert(guardName);
       generatedType_section->SetValue(GENERATED_TYPE_DECLARE_TYPENAME_VAR, guardName);
       generateDeclarationOfComposableType(generatedType_section, composableType, 1,
                                           GenerateDeclarationOfComposableTypeOrigin::GENERATE_TOP_LEVEL_USED_TYPE);
+      m_nbComposableTypeBeingGenerated--;
+      /*
+       * 3. Generate the pointed types
+       */
+      while(m_nbComposableTypeBeingGenerated == 0 && !m_pointedTypesToGenerate.empty())
+      {
+        const TypeItf* pointedType = m_pointedTypesToGenerate.back();
+        m_pointedTypesToGenerate.pop_back();
+        generateDeclarationOfUsedType(m_rootDictionary, pointedType, false);
+      }
     }
     else
     {
@@ -2091,6 +2117,11 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
   {
     generateDeclarationOfUsedType(p_parentDictionary, qualifiedType->getUnqualifiedType(), false);
   }
+  else if(pointerType && m_nbComposableTypeBeingGenerated > 0)
+  {
+    // What is pointed to can contain the types being generated, so it must come after them
+    m_pointedTypesToGenerate.push_back(pointerType->getPointedType());
+  }
   else if(pointerType)
   {
     generateDeclarationOfUsedType(p_parentDictionary, pointerType->getPointedType(), false);
@@ -2109,6 +2140,63 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
   }
 }
 
+/*
+ * A type can be incomplete only because it was met while it was being parsed. Its complete form is
+ * then somewhere else in the type being generated.
+ */
+void CodeGeneratorCTemplate::registerCompleteComposableTypes(const TypeItf* p_type)
+{
+  const TypeItf* rawType = getRawType(p_type);
+  const ComposableType* composableType = rawType->asComposableType();
+  const FunctionType* functionType = rawType->asFunctionType();
+  if(composableType)
+  {
+    if(!composableType->getName().empty() && !composableType->isForwardDeclared() &&
+       !m_completeComposableTypes.emplace(composableType->getComposableTypeKeyword() + composableType->getName(), composableType).second)
+    {
+      return;
+    }
+    for(const auto& field : composableType->getContainedFields())
+    {
+      std::visit([this](const auto& curField)
+      {
+        registerCompleteComposableTypes(curField.getType());
+      }, field);
+    }
+  }
+  else if(functionType)
+  {
+    registerCompleteComposableTypes(functionType->getReturnValue()->getType());
+    for(const auto& param : functionType->getFunctionsParameters())
+    {
+      registerCompleteComposableTypes(param.getType());
+    }
+  }
+}
+
+void CodeGeneratorCTemplate::generateDeclarationOfIncompleteFields(const ComposableType* p_composableType)
+{
+  for(const auto& field : p_composableType->getContainedFields())
+  {
+    std::visit([this](const auto& curField)
+    {
+      const IncompleteType* incompleteType = getMostDefinedType(curField.getType())->asIncompleteType();
+      if(!incompleteType)
+      {
+        return;
+      }
+      const std::string typeName = incompleteType->getComposableTypeKeyword() + incompleteType->getName();
+      auto completeType = m_completeComposableTypes.find(typeName);
+      if(completeType != m_completeComposableTypes.end() && m_generatedComposableTypes.find(typeName) == m_generatedComposableTypes.end())
+      {
+        m_nbComposableTypeBeingGenerated++;
+        generateDeclarationOfUsedType(m_rootDictionary, completeType->second, false);
+        m_nbComposableTypeBeingGenerated--;
+      }
+    }, field);
+  }
+}
+
 void CodeGeneratorCTemplate::generateForwardDeclaration(const TypeItf *p_type)
 {
   if(!m_generateUsedType)
-- 
2.43.0


From d5292c5cec7b6244e72c3222eda83cda8bbaa0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 29/66] fix: generate members and typedefs from their type
 instead of the text of the header

---
 .../include/CodeGeneratorCTemplate.h          |   2 +
 .../include/ComposableFieldItf.h              |  25 +++
 src/easyMockGenerate/include/ComposableType.h |  11 ++
 src/easyMockGenerate/include/Enum.h           |  22 +++
 src/easyMockGenerate/include/TypedefType.h    |  15 ++
 .../CodeGeneratorCTemplate.cpp                |  71 ++++++++-
 .../src/ComposableFieldItf.cpp                |  10 ++
 src/easyMockGenerate/src/ComposableType.cpp   |  14 +-
 src/easyMockGenerate/src/Enum.cpp             |  21 +++
 .../src/LLVMParser/LLVMParser.cpp             | 143 +++++++++++++++++-
 src/easyMockGenerate/src/TypedefType.cpp      |  10 ++
 11 files changed, 331 insertions(+), 13 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 70225ac..173c7d7 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -106,6 +106,8 @@ private:
   void generateForwardDeclaration(const TypeItf* p_type);
 
   const TypeItf* getMostPointedType(const TypeItf* p_type);
+  const TypeItf* getNamedType(const TypeItf* p_type);
+  std::string getFullDeclarationString(std::string p_fullDeclaration, const TypeItf* p_type);
 
   std::unordered_set<std::string> m_generatedComparator;
   unsigned int m_nbUnamedParam;
diff --git a/src/easyMockGenerate/include/ComposableFieldItf.h b/src/easyMockGenerate/include/ComposableFieldItf.h
index ed2e806..325cd49 100644
--- a/src/easyMockGenerate/include/ComposableFieldItf.h
+++ b/src/easyMockGenerate/include/ComposableFieldItf.h
@@ -22,6 +22,12 @@ class ComposableBitfield;
 class ComposableFieldItf : public Declarator
 {
 public:
+  /*!
+   * \brief Stands for the name of an unnamed struct, union or enum in a complete declaration
+   *
+   * \see ::ComposableFieldItf::setFullDeclaration()
+   */
+  static constexpr const char* UNNAMED_TAG = "(unnamed)";
 
   /*!
    * \brief Forwards the call to the ::Declarator class constructor
@@ -102,6 +108,24 @@ public:
    */
   const std::string& getName() const;
 
+  /*!
+   * \brief Sets the complete declaration of the field.
+   *
+   * \param p_fullDeclaration The declaration as the compiler understands it, without the final ';'. E.g. <tt>int (*f)[2][3]</tt>.
+   * ::ComposableFieldItf::UNNAMED_TAG stands for the name of an unnamed struct, union or enum.
+   *
+   * The complete declaration isn't taken into account when fields are compared.
+   */
+  void setFullDeclaration(std::string p_fullDeclaration);
+
+  /*!
+   * \brief Returns the complete declaration of the field.
+   *
+   * The string returned is empty if it isn't known.
+   * \see ::ComposableFieldItf::setFullDeclaration()
+   */
+  const std::string& getFullDeclaration() const;
+
   virtual bool isEqual(const Declarator& p_other) const override;
 
   /*!
@@ -117,6 +141,7 @@ public:
   virtual ~ComposableFieldItf() {}
 private:
   std::string m_name;
+  std::string m_fullDeclaration;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/include/ComposableType.h b/src/easyMockGenerate/include/ComposableType.h
index f7ebf40..294c91a 100644
--- a/src/easyMockGenerate/include/ComposableType.h
+++ b/src/easyMockGenerate/include/ComposableType.h
@@ -93,6 +93,16 @@ public:
    */
   bool isForwardDeclared() const;
 
+  /*!
+   * \brief Sets the attributes which change the layout of the type. E.g. <tt>__attribute__((packed))</tt>
+   */
+  void setAttributes(std::string p_attributes);
+
+  /*!
+   * \brief Returns the attributes which change the layout of the type.
+   */
+  const std::string& getAttributes() const;
+
   /*!
    * \brief Sets whether the composable type is forward declared or not.
    *
@@ -143,6 +153,7 @@ private:
   ComposableFieldTypeVector m_elem;
   bool m_is_declaration_embedded_in_other_type;
   bool m_is_forward_declared;
+  std::string m_attributes;
   std::size_t m_cachedHash;
   ComposableMethodVector m_functions;
 };
diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 5608992..77fff97 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -44,6 +44,26 @@ public:
    */
   const listOfValuesType& getValues() const;
 
+  /*!
+   * \brief Sets whether the values must be read as unsigned 64 bit integers.
+   */
+  void setUnsigned(bool p_value);
+
+  /*!
+   * \brief Returns whether the values must be read as unsigned 64 bit integers.
+   */
+  bool isUnsigned() const;
+
+  /*!
+   * \copydoc ::ComposableType::setAttributes
+   */
+  void setAttributes(std::string p_attributes);
+
+  /*!
+   * \copydoc ::ComposableType::getAttributes
+   */
+  const std::string& getAttributes() const;
+
   /*!
    * \copydoc ::TypeItf::getDeclarationPrefix
    */
@@ -68,6 +88,8 @@ protected:
 
 private:
   listOfValuesType m_listOfValues;
+  bool m_isUnsigned;
+  std::string m_attributes;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/include/TypedefType.h b/src/easyMockGenerate/include/TypedefType.h
index dd3a579..ec53865 100644
--- a/src/easyMockGenerate/include/TypedefType.h
+++ b/src/easyMockGenerate/include/TypedefType.h
@@ -52,6 +52,20 @@ public:
    */
   virtual std::string getDeclarationPrefix(bool p_naked = false) const override;
 
+  /*!
+   * \brief Sets the complete declaration made by the typedef.
+   *
+   * \see ::ComposableFieldItf::setFullDeclaration()
+   */
+  void setFullDeclaration(std::string p_fullDeclaration);
+
+  /*!
+   * \brief Returns the complete declaration made by the typedef.
+   *
+   * The string returned is empty if it isn't known.
+   */
+  const std::string& getFullDeclaration() const;
+
   /*!
    * \brief Returns the typee type.
    *
@@ -98,6 +112,7 @@ public:
 protected:
 private:
   std::shared_ptr<TypeItf> m_typeeType;
+  std::string m_fullDeclaration;
   std::size_t m_cachedHash;
   std::size_t m_cachedRawHash;
 };
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ec798c5..8e72064 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -171,6 +171,8 @@
 #define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_enum_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
 
 #define COMPOSABLE_TYPE_DECLARE_TYPE_SECTION "COMPOSABLE_TYPE_DECLARE_TYPE_SECTION"
+#define TYPE_ATTRIBUTES_VAR "TYPE_ATTRIBUTES_VAR"
+#define TYPE_ATTRIBUTES_TEMPLATE_VAR TEMPLATE_VAR(TYPE_ATTRIBUTES_VAR)
 #define TYPE_DECLARATION_VAR "TYPE_DECLARATION_VAR"
 #define TYPE_DECLARATION_TEMPLATE_VAR TEMPLATE_VAR(TYPE_DECLARATION_VAR)
 #define TYPE_NAME_VAR "TYPE_NAME_VAR"
@@ -880,7 +882,7 @@ const char headerFileTemplate[] =
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_ENUM_VALUE_SECTION)
           "  " GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR " = " GENERATED_TYPE_ENUM_VALUE_VALUE_TEMPLATE_VAR "," CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_ENUM_VALUE_SECTION)
-          "};" CARRIAGE_RETURN
+          "}" TYPE_ATTRIBUTES_TEMPLATE_VAR ";" CARRIAGE_RETURN
           "#endif //" GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_ENUM_SECTION)
 
@@ -935,7 +937,7 @@ const char composableType_DeclareComposableType_template[] =
         "    " INSIDE_CLASS_FUNCTION_DECLARATION CARRIAGE_RETURN
              TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "    " TEMPLATE_INCL_SECTION(COMPOSABLE_TYPE_DECLARE_TYPE_FIELD_OR_COMPOSABLE_TYPE_FIELD_SECTION) CARRIAGE_RETURN
-        "}"
+        "}" TYPE_ATTRIBUTES_TEMPLATE_VAR
         )
         IF_SECTION_EXISTS(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION, " " COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_TEMPLATE_VAR)
         ";" CARRIAGE_RETURN;
@@ -2061,6 +2063,11 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
             } else
             {
               generateDeclarationOfUsedType(p_parentDictionary, composableFieldType, false);
+              if(composableField.getFullDeclaration().find(")[") != std::string::npos)
+              {
+                // The elements of an array must be complete even when it is only pointed to
+                generateDeclarationOfUsedType(p_parentDictionary, getRawType(composableFieldType), false);
+              }
             }
           },
           [this, &p_parentDictionary](const auto &composableBitfield)
@@ -2282,6 +2289,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
   const auto& vectField = p_composedType->getContainedFields();
   ctemplate::TemplateDictionary* templateDictionary {nullptr};
   templateDictionary = anonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_BODY_SECTION);
+  templateDictionary->SetValue(TYPE_ATTRIBUTES_VAR, p_composedType->getAttributes());
   for (const auto& curFieldVar : vectField)
   {
     std::visit([this, &p_nbLevelToGenerate, &p_origin, &templateDictionary](const auto& curField)
@@ -2292,7 +2300,8 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
       ctemplate::TemplateDictionary *curFieldDict = templateDictionary->AddIncludeDictionary(COMPOSABLE_TYPE_DECLARE_TYPE_FIELD_OR_COMPOSABLE_TYPE_FIELD_SECTION);
       curFieldDict->SetFilename(COMPOSABLE_TYPE_DECLARE_TYPE_FIELD_OR_COMPOSABLE_TYPE_FIELD_TEMPLATE_NAME);
 
-      if(composableType)
+      const std::string fullDeclaration = getFullDeclarationString(curField.getFullDeclaration(), fieldType);
+      if(composableType && (fullDeclaration.empty() || fieldType->isAnonymous()))
       {
         std::string curFieldName = curField.getName();
         int nextNbLevelToGenerate = p_nbLevelToGenerate == 0 ? 0 : p_nbLevelToGenerate - 1;
@@ -2305,7 +2314,14 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
           nextNbLevelToGenerate++;
         }
         ctemplate::TemplateDictionary* subAnonymousDeclDict = generateDeclarationOfComposableType(curFieldDict, composableType, nextNbLevelToGenerate, nextOrigin);
-        if(!curFieldName.empty())
+        const size_t unnamedTagPos = curField.getFullDeclaration().find(ComposableFieldItf::UNNAMED_TAG);
+        if(unnamedTagPos != std::string::npos)
+        {
+          // What comes after the type whose body has just been generated
+          std::string declarator = curField.getFullDeclaration().substr(unnamedTagPos + std::strlen(ComposableFieldItf::UNNAMED_TAG));
+          subAnonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION)->SetValue(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_VAR, declarator);
+        }
+        else if(!curFieldName.empty())
         {
           const ComposableField* curCompField = dynamic_cast<const ComposableField*>(&curField);
           if(curCompField && curCompField->isBoundSpecifiedArray())
@@ -2338,6 +2354,11 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
           fieldName.push_back(':');
           fieldName.append(std::to_string(curComposableBitfield->getSize()));
         }
+        if(!fullDeclaration.empty())
+        {
+          curFieldValDict->SetValue(TYPE_DECLARATION_VAR, fullDeclaration);
+          fieldName.clear();
+        }
         curFieldValDict->SetValue(TYPE_NAME_VAR, fieldName);
         const Pointer* nonQualifiedFieldPtrType = fieldType->unqualify()->asPointer();
         if(nonQualifiedFieldPtrType)
@@ -2593,6 +2614,16 @@ std::string CodeGeneratorCTemplate::getDeclaratorString(const Declarator& p_decl
   return rv;
 }
 
+std::string CodeGeneratorCTemplate::getFullDeclarationString(std::string p_fullDeclaration, const TypeItf* p_type)
+{
+  const size_t unnamedTagPos = p_fullDeclaration.find(ComposableFieldItf::UNNAMED_TAG);
+  if(unnamedTagPos != std::string::npos)
+  {
+    p_fullDeclaration.replace(unnamedTagPos, std::strlen(ComposableFieldItf::UNNAMED_TAG), getAnonymousName(getRawType(p_type)));
+  }
+  return p_fullDeclaration;
+}
+
 bool CodeGeneratorCTemplate::isTypeGenerated(const TypeItf* p_type, bool p_insert)
 {
   const bool present = m_generateTypes.find(p_type) != m_generateTypes.end();
@@ -2603,6 +2634,21 @@ bool CodeGeneratorCTemplate::isTypeGenerated(const TypeItf* p_type, bool p_inser
   return present;
 }
 
+const TypeItf* CodeGeneratorCTemplate::getNamedType(const TypeItf* p_type)
+{
+  const Pointer* ptrType = p_type->asPointer();
+  if(ptrType)
+  {
+    return getNamedType(ptrType->getPointedType());
+  }
+  const QualifiedType* qualifiedType = p_type->asQualifiedType();
+  if(qualifiedType)
+  {
+    return getNamedType(qualifiedType->getUnqualifiedType());
+  }
+  return p_type;
+}
+
 const TypeItf* CodeGeneratorCTemplate::getMostPointedType(const TypeItf* p_type)
 {
   const Pointer* ptrType = p_type->asPointer();
@@ -2636,10 +2682,21 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   const TypeItf *rawType = getRawType(typeeType);
   const FunctionType *functionType = rawType->asFunctionType();
   bool isRawTypeFunctionType = functionType != nullptr;
+  // What the typedef names must be declared before
+  if(isRawTypeFunctionType)
+  {
+    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
+  }
+  generateSimpleTypeDef(getNamedType(typeeType));
   ctemplate::TemplateDictionary *typeDefDict = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION);
   typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME, typedefName);
 
-  if(!isRawTypeFunctionType)
+  const std::string& fullDeclaration = typedefType->getFullDeclaration();
+  if(!fullDeclaration.empty())
+  {
+    localType = getFullDeclarationString(fullDeclaration, typeeType);
+  }
+  else if(!isRawTypeFunctionType)
   {
     if (rawType->getName().empty())
     {
@@ -2649,7 +2706,6 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   }
   else
   {
-    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
     localType += typedefName;
     localType += functionType->getDeclarationPostfix();
     /*
@@ -2698,10 +2754,11 @@ void CodeGeneratorCTemplate::generateEnum(const TypeItf* p_type)
   }
   ctemplate::TemplateDictionary* enumSection = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_ENUM_SECTION);
   enumSection->SetValue(GENERATED_TYPE_ENUM_NAME_VAR, localTypeName);
+  enumSection->SetValue(TYPE_ATTRIBUTES_VAR, enumType->getAttributes());
   for(const auto& enumVal : enumType->getValues())
   {
     ctemplate::TemplateDictionary *curVal = enumSection->AddSectionDictionary(GENERATED_TYPE_ENUM_VALUE_SECTION);
-    curVal->SetValue(GENERATED_TYPE_ENUM_VALUE_VALUE_VAR, std::to_string(enumVal.first));
+    curVal->SetValue(GENERATED_TYPE_ENUM_VALUE_VALUE_VAR, enumType->isUnsigned() ? std::to_string(static_cast<uint64_t>(enumVal.first)) : std::to_string(enumVal.first));
     curVal->SetValue(GENERATED_TYPE_ENUM_VALUE_NAME_VAR, enumVal.second);
   }
 }
diff --git a/src/easyMockGenerate/src/ComposableFieldItf.cpp b/src/easyMockGenerate/src/ComposableFieldItf.cpp
index 461b98e..0ac800d 100644
--- a/src/easyMockGenerate/src/ComposableFieldItf.cpp
+++ b/src/easyMockGenerate/src/ComposableFieldItf.cpp
@@ -59,6 +59,16 @@ const std::string& ComposableFieldItf::getName() const
   return m_name;
 }
 
+void ComposableFieldItf::setFullDeclaration(std::string p_fullDeclaration)
+{
+  m_fullDeclaration = std::move(p_fullDeclaration);
+}
+
+const std::string& ComposableFieldItf::getFullDeclaration() const
+{
+  return m_fullDeclaration;
+}
+
 std::size_t ComposableFieldItf::getHash() const noexcept
 {
   if(m_cachedHash != 0)
diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index b2f3fcb..631d831 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -27,6 +27,16 @@ bool ComposableType::isForwardDeclared() const
   return m_is_forward_declared;
 }
 
+void ComposableType::setAttributes(std::string p_attributes)
+{
+  m_attributes = std::move(p_attributes);
+}
+
+const std::string& ComposableType::getAttributes() const
+{
+  return m_attributes;
+}
+
 void ComposableType::setForwardDecl(bool p_value)
 {
   m_is_forward_declared = p_value;
@@ -43,6 +53,7 @@ std::size_t ComposableType::getHash() const noexcept
   boost::hash_combine(seed, m_elem);
   boost::hash_combine(seed, m_is_declaration_embedded_in_other_type);
   boost::hash_combine(seed, m_is_forward_declared);
+  boost::hash_combine(seed, m_attributes);
   for(const auto& function : m_functions)
   {
     //const auto f_ptr = function.lock();
@@ -85,6 +96,7 @@ bool ComposableType::isEqual(const TypeItf& p_other) const
   bool elemEq = this->m_elem == other->m_elem;
   bool embedEq = this->m_is_declaration_embedded_in_other_type == other->m_is_declaration_embedded_in_other_type;
   bool isForwardDecl = this->m_is_forward_declared == other->m_is_forward_declared;
+  bool attributesEq = this->m_attributes == other->m_attributes;
   if(m_functions.size() != other->m_functions.size())
   {
     return false;
@@ -98,7 +110,7 @@ bool ComposableType::isEqual(const TypeItf& p_other) const
       return false;
     }
   }
-  return typeEq && parentEq && elemEq && embedEq && isForwardDecl;
+  return typeEq && parentEq && elemEq && embedEq && isForwardDecl && attributesEq;
 }
 
 std::string ComposableType::getDeclarationPrefix(bool p_naked) const
diff --git a/src/easyMockGenerate/src/Enum.cpp b/src/easyMockGenerate/src/Enum.cpp
index 9c3d7b6..e274fa7 100644
--- a/src/easyMockGenerate/src/Enum.cpp
+++ b/src/easyMockGenerate/src/Enum.cpp
@@ -5,6 +5,7 @@
 
 Enum::Enum(const std::string p_name):
 TypeItf { p_name },
+m_isUnsigned{false},
 m_cachedHash{0}
 {
   setEnum(true);
@@ -15,6 +16,26 @@ void Enum::addEnumValue(int64_t p_value, const std::string& p_enumStr)
   m_listOfValues.emplace(p_value, p_enumStr);
 }
 
+void Enum::setUnsigned(bool p_value)
+{
+  m_isUnsigned = p_value;
+}
+
+bool Enum::isUnsigned() const
+{
+  return m_isUnsigned;
+}
+
+void Enum::setAttributes(std::string p_attributes)
+{
+  m_attributes = std::move(p_attributes);
+}
+
+const std::string& Enum::getAttributes() const
+{
+  return m_attributes;
+}
+
 const Enum::listOfValuesType& Enum::getValues() const
 {
   return m_listOfValues;
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 36b42f8..958e8ed 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -664,6 +664,10 @@ private:
     {
       type = getFromFunctionPrototype(clangType, structKnownType);
     }
+    else if (clangType.isAtomicType())
+    {
+      type = getEasyMocktype(clangType.castAs<clang::AtomicType>()->getValueType(), structKnownType, isEmbeddedInOtherType);
+    }
     else if (clangType.isEnumeralType())
     {
       type = getFromEnumType(clangType, structKnownType);
@@ -765,12 +769,132 @@ private:
     std::shared_ptr<TypeItf> returnedType = cType;
     if(!typedefName.empty())
     {
-      returnedType = std::make_shared<TypedefType>(typedefName, std::move(returnedType));
+      returnedType = makeTypedefType(type, std::move(returnedType));
     }
 
     return returnedType;
   }
 
+  std::shared_ptr<TypedefType> makeTypedefType(const clang::Type &p_type, std::shared_ptr<TypeItf> p_typee)
+  {
+    const clang::TypedefNameDecl *typedefDecl = p_type.getAs<clang::TypedefType>()->getDecl();
+    auto typedefType = std::make_shared<TypedefType>(typedefDecl->getNameAsString(), std::move(p_typee));
+    clang::QualType underlyingType = typedefDecl->getUnderlyingType();
+    // The typedef is directly made from the type named by other typedefs
+    while(const auto *otherTypedef = underlyingType->getAs<clang::TypedefType>())
+    {
+      underlyingType = m_context->getQualifiedType(otherTypedef->getDecl()->getUnderlyingType(), underlyingType.getQualifiers());
+    }
+    typedefType->setFullDeclaration(getFullDeclaration(underlyingType, typedefDecl->getNameAsString()));
+    return typedefType;
+  }
+
+  /*
+   * Builds the declaration of p_name from its type, whatever the way it is written in the header.
+   *
+   * It isn't known (and left to the text of the header) for C++ and for functions and pointers to function.
+   */
+  std::string getFullDeclaration(clang::QualType p_type, const std::string& p_name)
+  {
+    if(m_LO->CPlusPlus)
+    {
+      return "";
+    }
+    const clang::PrintingPolicy policy{*m_LO};
+    auto getQualifiers = [&policy](const clang::QualType &type)
+    {
+      const std::string qualifiers = type.getQualifiers().getAsString(policy);
+      return qualifiers.empty() ? qualifiers : qualifiers + " ";
+    };
+    std::string declarator{p_name};
+    while(true)
+    {
+      // The typedefs of arrays aren't generated
+      if(const clang::ArrayType *arrayType = m_context->getAsArrayType(p_type))
+      {
+        const auto *constantArrayType = llvm::dyn_cast<clang::ConstantArrayType>(arrayType);
+        declarator += "[" + (constantArrayType ? std::to_string(constantArrayType->getSize().getZExtValue()) : "") + "]";
+        p_type = arrayType->getElementType();
+      }
+      else if(p_type->isPointerType() && !p_type->getAs<clang::TypedefType>())
+      {
+        const clang::QualType pointee = p_type->getPointeeType();
+        declarator = "*" + getQualifiers(p_type) + declarator;
+        if(pointee->isArrayType())
+        {
+          declarator = "(" + declarator + ")";
+        }
+        p_type = pointee;
+      }
+      else
+      {
+        break;
+      }
+    }
+    if(p_type->isFunctionType())
+    {
+      return "";
+    }
+    std::string base;
+    const clang::TagDecl *tagDecl = p_type->getAsTagDecl();
+    if(p_type->getAs<clang::TypedefType>())
+    {
+      base = getTypedefName(*p_type);
+    }
+    else if(tagDecl)
+    {
+      base = tagDecl->getKindName().str() + " " + (tagDecl->getIdentifier() ? tagDecl->getNameAsString() : ComposableFieldItf::UNNAMED_TAG);
+    }
+    else
+    {
+      base = p_type.getUnqualifiedType().getAsString(policy);
+    }
+    return getQualifiers(p_type) + base + " " + declarator;
+  }
+
+  std::string getFullFieldDeclaration(const clang::FieldDecl *p_field)
+  {
+    std::string declaration = getFullDeclaration(p_field->getType(), p_field->getNameAsString());
+    if(declaration.empty())
+    {
+      return declaration;
+    }
+    if(p_field->isBitField())
+    {
+      declaration += ":" + std::to_string(p_field->getBitWidthValue(*m_context));
+    }
+    declaration += getLayoutAttributes(p_field);
+    // #pragma pack
+    const auto *maxAlignment = p_field->getParent()->getAttr<clang::MaxFieldAlignmentAttr>();
+    if(maxAlignment && m_context->getTypeAlign(p_field->getType()) > maxAlignment->getAlignment())
+    {
+      declaration += " __attribute__((packed, aligned(" + std::to_string(maxAlignment->getAlignment() / m_context->getCharWidth()) + ")))";
+    }
+    return declaration;
+  }
+
+  /*
+   * The attributes that change the layout
+   */
+  std::string getLayoutAttributes(const clang::Decl *p_decl)
+  {
+    std::string attributes;
+    if(m_LO->CPlusPlus)
+    {
+      return attributes;
+    }
+    const auto *maxAlignment = p_decl->getAttr<clang::MaxFieldAlignmentAttr>();
+    if(p_decl->hasAttr<clang::PackedAttr>() || (maxAlignment && maxAlignment->getAlignment() == m_context->getCharWidth()))
+    {
+      attributes += " __attribute__((packed))";
+    }
+    if(p_decl->hasAttr<clang::AlignedAttr>())
+    {
+      attributes += " __attribute__((aligned(" + std::to_string(p_decl->getMaxAlignment() / m_context->getCharWidth()) + ")))";
+    }
+    return attributes;
+  }
+
   std::shared_ptr<TypeItf> getFromStructType(const clang::Type &type, structKnownTypeMap &structKnownType, bool isEmbeddedInOtherType)
   {
     return getFromContainerType(type, STRUCT, structKnownType, isEmbeddedInOtherType);
@@ -832,11 +956,16 @@ private:
       const std::string enumName = enumConstantDeclaration->getNameAsString();
       enumType->addEnumValue(enumValue, enumName);
     }
+    enumType->setUnsigned(!ED->getPromotionType().isNull() && ED->getPromotionType()->isUnsignedIntegerType());
+    if(!m_LO->CPlusPlus && ED->hasAttr<clang::PackedAttr>())
+    {
+      enumType->setAttributes(" __attribute__((packed))");
+    }
     const std::string typedefName = getTypedefName(type);
     std::shared_ptr<TypeItf> toReturn = enumType;
     if(!typedefName.empty())
     {
-      toReturn = std::make_shared<TypedefType>(typedefName, std::move(toReturn));
+      toReturn = makeTypedefType(type, std::move(toReturn));
     }
     return toReturn;
   }
@@ -933,6 +1062,7 @@ private:
 
     // If the type doesn't have a complete definition, it is forward declared.
     sType->setForwardDecl(!RD->isCompleteDefinition());
+    sType->setAttributes(getLayoutAttributes(RD));
 
     if(m_ignoreTypeFieldList.find(typeName) == m_ignoreTypeFieldList.end())
     {
@@ -948,7 +1078,9 @@ private:
         {
           unsigned bitWidth = FD->getBitWidthValue(*m_context);
           assert(bitWidth < 256);
-          sType->addField(ComposableBitfield{std::move(fieldType), fName, static_cast<uint8_t>(bitWidth)});
+          ComposableBitfield bf{std::move(fieldType), fName, static_cast<uint8_t>(bitWidth)};
+          bf.setFullDeclaration(getFullFieldDeclaration(FD));
+          sType->addField(std::move(bf));
         } else
         {
           int64_t arraySize = getArraySize(*typePtr);
@@ -958,6 +1090,7 @@ private:
           }
           ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize}};
           setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
+          sf.setFullDeclaration(getFullFieldDeclaration(FD));
           sType->addField(std::move(sf));
         }
       }
@@ -965,7 +1098,7 @@ private:
     std::shared_ptr<TypeItf> toReturn = sType;
     if(!typedDefName.empty())
     {
-      toReturn = std::make_shared<TypedefType>(typedDefName, std::move(toReturn));
+      toReturn = makeTypedefType(p_type, std::move(toReturn));
       structKnownType.erase(typedDefName);
     }
     if(!typeName.empty())
@@ -994,7 +1127,7 @@ private:
     std::string typedDefName = getTypedefName(type);
     if(!typedDefName.empty())
     {
-      returnedTyped = std::make_shared<TypedefType>(typedDefName, std::move(returnedTyped));
+      returnedTyped = makeTypedefType(type, std::move(returnedTyped));
     }
 
     return returnedTyped;
diff --git a/src/easyMockGenerate/src/TypedefType.cpp b/src/easyMockGenerate/src/TypedefType.cpp
index 7336801..f4f5abe 100644
--- a/src/easyMockGenerate/src/TypedefType.cpp
+++ b/src/easyMockGenerate/src/TypedefType.cpp
@@ -69,6 +69,16 @@ bool TypedefType::isEqual(const TypeItf &p_other) const
   return typeeEqual;
 }
 
+void TypedefType::setFullDeclaration(std::string p_fullDeclaration)
+{
+  m_fullDeclaration = std::move(p_fullDeclaration);
+}
+
+const std::string& TypedefType::getFullDeclaration() const
+{
+  return m_fullDeclaration;
+}
+
 const TypeItf* TypedefType::getTypee() const
 {
   return m_typeeType.get();
-- 
2.43.0


From cd6581e9dd8ae3c1ee0351921540e85d00ca8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 30/66] fix: compare members declared through a typedef of a
 pointer as pointers

They were compared as the type pointed to: the comparator of a type which might not even be complete was called.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 8e72064..31a031e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1816,8 +1816,7 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
   static unsigned int s_nbAnonymousField = 0;
 
   const TypeItf* curFieldType = p_curField->getType();
-  const TypeItf* unqualType = curFieldType->unqualify();
-  const bool isPointer = unqualType->isPointer();
+  const bool isPointer = getUnqualifiedAndUntypedefType(curFieldType)->isPointer();
   const TypeItf* rawCurFieldType = getRawType(curFieldType);
   const ComposableType* curFieldComposableType = rawCurFieldType->asComposableType();
   const IncompleteType* incompleteType = rawCurFieldType->asIncompleteType();
-- 
2.43.0


From 66eb0aa18b82c91bb22406e1407788bba1149bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 31/66] fix: find the requested comparators of types whose
 names begin with struct_ or union_

The beginning of their own name was removed as if it was the keyword.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp  | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 31a031e..90aad5b 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2391,14 +2391,10 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   }
   std::string uniqueName {getComparatorName(p_composedType) };
   std::string toFind {uniqueName};
-  auto keywordList = {"struct_", "union_"};
-  for(const auto& keyword: keywordList)
+  if(getTypeDefName(p_composedType).empty())
   {
-    std::string with {};
-    if(toFind.find(keyword) == 0)
-    {
-      toFind.replace(0, std::strlen(keyword), with.data(), with.length());
-    }
+    //The type is asked for without its keyword
+    toFind.erase(0, std::strlen(p_composedType->getComposableTypeKeyword()) + 1);
   }
   bool forceGenerateAll = std::find(std::begin(m_comparatorList), std::end(m_comparatorList), "EasyMock_all_comparators") != std::end(m_comparatorList);
   bool mustGenerate = std::find(std::begin(m_comparatorList), std::end(m_comparatorList), toFind) != std::end(m_comparatorList);
-- 
2.43.0


From 4d8a981438b4436f441d93afe7466bca16af74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 32/66] fix: keep the layout of anonymous members in the
 comparators of C++ mocks

The packed and aligned attributes were only kept in C.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 958e8ed..9acc17f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -879,10 +879,6 @@ private:
   std::string getLayoutAttributes(const clang::Decl *p_decl)
   {
     std::string attributes;
-    if(m_LO->CPlusPlus)
-    {
-      return attributes;
-    }
     const auto *maxAlignment = p_decl->getAttr<clang::MaxFieldAlignmentAttr>();
     if(p_decl->hasAttr<clang::PackedAttr>() || (maxAlignment && maxAlignment->getAlignment() == m_context->getCharWidth()))
     {
-- 
2.43.0


From 59c636f0cd46c19b5e2264535e7f2daf19f8b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 33/66] fix: print the 128 bits integers with a valid format in
 the comparators

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp  | 14 ++++++++++++--
 src/easyMockGenerate/src/EasyMockGenerateTypes.cpp |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 90aad5b..7ad3a32 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -204,6 +204,8 @@
 #define ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR "ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR"
 #define ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR TEMPLATE_VAR(ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR)
 
+#define ERROR_PRINTF_VAL_128_BITS_SECTION "ERROR_PRINTF_VAL_128_BITS_SECTION"
+
 #define EXTRA_DECL_SECTION "EXTRA_DECL_SECTION"
 #define EXTRA_TOP_LEVEL_DECL_SECTION "EXTRA_TOP_LEVEL_DECL_SECTION"
 
@@ -529,7 +531,7 @@ const char templateText[] =
         "    if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName, " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName, " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "        return -1;" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
@@ -545,7 +547,7 @@ const char templateText[] =
         "        if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName" PRINT_CMP_ARRAY_IDX_value ",  currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName" PRINT_CMP_ARRAY_IDX_value ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "            return -1;" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
@@ -1984,6 +1986,14 @@ void CodeGeneratorCTemplate::generateBasicTypeField(const ComposableFieldItf *p_
     ctemplate::TemplateDictionary* castSection = errorDict->AddSectionDictionary(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION);
     castSection->SetValue(ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR, p_curField->getType()->getFullDeclarationName());
   }
+  const TypeItf *rawFieldType = getUnqualifiedAndUntypedefType(curFieldType);
+  if(rawFieldType->isCType() && (rawFieldType->getCType() == CTYPE_INT128 || rawFieldType->getCType() == CTYPE_UINT128))
+  {
+    //There is no printf format for these types. The 2 halves are printed one after the other
+    errorDict->AddSectionDictionary(ERROR_PRINTF_VAL_128_BITS_SECTION);
+    ctemplate::TemplateDictionary* castSection = errorDict->AddSectionDictionary(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION);
+    castSection->SetValue(ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR, "unsigned long long");
+  }
   setStructCompareStringFormat(errorDict, curFieldType);
 
   p_paramSectDict->SetValue(COMPARE_CONDITION, condition);
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index 2febf6e..ca9f6a4 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -44,8 +44,8 @@ const char *easyMock_printfFormat[] =
   "f",
   "lf",
   "Lf",
-  "lf%lf",
-  "Lf%Lf",
+  "#llx%016llx",
+  "#llx%016llx",
   "d",
   "d",
   "voidInvalidPrintfFormat",
-- 
2.43.0


From 35bca5efc1f0c380cc7625cc83a755d3371d647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 34/66] fix: compare every element of the members which are
 arrays of arrays

The elements of the outer array were compared as pointers, i.e. always found different.
---
 .../include/ComposableField.h                 | 18 ++++++
 .../CodeGeneratorCTemplate.cpp                | 56 ++++++++++++++++---
 src/easyMockGenerate/src/ComposableField.cpp  | 14 ++++-
 .../src/LLVMParser/LLVMParser.cpp             | 12 ++++
 4 files changed, 91 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/include/ComposableField.h b/src/easyMockGenerate/include/ComposableField.h
index e2afd93..d6ef4ec 100644
--- a/src/easyMockGenerate/include/ComposableField.h
+++ b/src/easyMockGenerate/include/ComposableField.h
@@ -9,6 +9,7 @@
 #include "ComposableFieldItf.h"
 
 #include <string>
+#include <vector>
 
 //Forward declare TypeItf to avoid circular include dependencies
 class TypeItf;
@@ -166,6 +167,22 @@ public:
    */
   int64_t getArraySize() const;
 
+  /*!
+   * \brief Sets the sizes of the arrays the field's array consists of.
+   *
+   * For <tt>int f[2][3][4]</tt>, the array size is 2 and the sizes of the
+   * inner arrays are 3 and 4. There is none when the elements of the array
+   * aren't arrays.
+   */
+  void setInnerArraySizes(std::vector<uint64_t> p_sizes);
+
+  /*!
+   * \brief Returns the sizes of the arrays the field's array consists of.
+   *
+   * \see setInnerArraySizes(std::vector<uint64_t>)
+   */
+  const std::vector<uint64_t>& getInnerArraySizes() const;
+
   /*!
    * \copydoc ::EasyMock::Hashable::getHash()
    */
@@ -185,6 +202,7 @@ private:
   bool isEqual(const Declarator& p_other) const override;
 
   int64_t m_arraySize;
+  std::vector<uint64_t> m_innerArraySizes;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 7ad3a32..cde3ccb 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/filesystem.hpp>
 #include <unordered_set>
 
@@ -68,6 +69,8 @@
 #define STRUCT_COMPARE_PARAM_SECTION "STRUCT_COMPARE_PARAM_SECTION"
 #define STRUCT_COMPARE_ARRAY_SECTION "STRUCT_COMPARE_ARRAY_SECTION"
 #define STRUCT_PRINT_IDX_SECTION "STRUCT_PRINT_IDX_SECTION"
+#define STRUCT_COMPARE_ARRAY_FIRST_ELEMENT "STRUCT_COMPARE_ARRAY_FIRST_ELEMENT"
+#define STRUCT_COMPARE_FIELD_VALUE "STRUCT_COMPARE_FIELD_VALUE"
 #define COMPARE_CONDITION "COMPARE_CONDITION"
 #define STRUCT_COMPARE_ERROR "STRUCT_COMPARE_ERROR"
 #define STRUCT_COMPARE_FIELD "STRUCT_COMPARE_FIELD"
@@ -531,14 +534,14 @@ const char templateText[] =
         "    if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName, " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName, " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(currentCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(expectedCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "        return -1;" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_PARAM_SECTION)
 
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ARRAY_SECTION)
-        "    for(unsigned int idx = 0; idx < (sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ")/sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "[0])); idx++)" CARRIAGE_RETURN
+        "    for(unsigned int idx = 0; idx < (sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ")/sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR TEMPLATE_VAR(STRUCT_COMPARE_ARRAY_FIRST_ELEMENT) ")); idx++)" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_PRE_IF_SECTION)
         "        CSTRING_AUTOCLEAN(" TEMPLATE_VAR(STRUCT_COMPARE_PRE_IF_SECTION_VAR_NAME) ") = cstring_new_init(paramName);" CARRIAGE_RETURN
@@ -547,7 +550,7 @@ const char templateText[] =
         "        if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName" PRINT_CMP_ARRAY_IDX_value ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName" PRINT_CMP_ARRAY_IDX_value ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(currentCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_128_BITS_SECTION, "(unsigned long long)(expectedCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) " >> 64), ") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" TEMPLATE_VAR(STRUCT_COMPARE_FIELD_VALUE) ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "            return -1;" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
@@ -1040,6 +1043,33 @@ bool isComposableTypeComplete(const ComposableType* composableType, const std::u
   return true;
 }
 
+/*
+ * The index of an element of the array of a field while idx counts the
+ * elements of all the arrays the array consists of.
+ */
+std::string getArrayElementIndex(const ComposableField& p_field)
+{
+  const auto& innerSizes = p_field.getInnerArraySizes();
+  if(innerSizes.empty())
+  {
+    return "[idx]";
+  }
+  std::string index {};
+  uint64_t nbElements { 1 };
+  for(auto it = innerSizes.rbegin(); it != innerSizes.rend(); ++it)
+  {
+    std::string curIndex { "[idx" };
+    if(nbElements != 1)
+    {
+      curIndex += " / " + std::to_string(nbElements);
+    }
+    curIndex += " % " + std::to_string(*it) + "]";
+    index = curIndex + index;
+    nbElements *= *it;
+  }
+  return "[idx / " + std::to_string(nbElements) + "]" + index;
+}
+
 bool doesFunctionUsesEmptyEnum(const FunctionDeclaration& fd)
 {
   const Enum* rv = fd.getReturnValue()->getType()->unqualify()->asEnum();
@@ -1800,7 +1830,7 @@ void CodeGeneratorCTemplate::generateFieldCmp(std::string& p_condition, const Co
   }
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
-    p_condition.append("[idx]");
+    p_condition.append(getArrayElementIndex(*curComposableField));
   }
 }
 
@@ -1812,6 +1842,12 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
     if(std::strcmp(p_ctemplateDictionarySectionToAdd, STRUCT_COMPARE_ARRAY_SECTION) == 0)
     {
       newDict->SetValue(STRUCT_COMPARE_FIELD, p_curField->getName());
+      std::string firstElement { "[0]" };
+      for(size_t dim = 0; dim < static_cast<const ComposableField*>(p_curField)->getInnerArraySizes().size(); dim++)
+      {
+        firstElement.append("[0]");
+      }
+      newDict->SetValue(STRUCT_COMPARE_ARRAY_FIRST_ELEMENT, firstElement);
     }
     return newDict;
   };
@@ -1941,21 +1977,24 @@ void CodeGeneratorCTemplate::generateBasicTypeField(const ComposableFieldItf *p_
   condition.append(p_curField->getName());
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
-    condition.append("[idx]");
+    condition.append(getArrayElementIndex(*curComposableField));
   }
   condition.append(" != expectedCall_val->");
   condition.append(p_curField->getName());
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
-    condition.append("[idx]");
+    condition.append(getArrayElementIndex(*curComposableField));
   }
   ctemplate::TemplateDictionary *errorDict = p_paramSectDict->AddSectionDictionary(STRUCT_COMPARE_ERROR);
   std::string compareField = p_curField->getName();
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
     errorDict->AddSectionDictionary(STRUCT_PRINT_IDX_SECTION); //This section needs to be added only once
-    compareField.append("[idx]");
+    compareField.append(getArrayElementIndex(*curComposableField));
   }
+  errorDict->SetValue(STRUCT_COMPARE_FIELD_VALUE, compareField);
+  //The name of the field is written in a printf format
+  boost::algorithm::replace_all(compareField, "%", "%%");
   errorDict->SetValue(STRUCT_COMPARE_FIELD, compareField);
   std::string compareType;
   if(!p_composedType->isDeclarationEmbeddedInOtherType())
@@ -2489,7 +2528,8 @@ void CodeGeneratorCTemplate::generateAllFieldStructCompare(ctemplate::TemplateDi
         const bool isArray = curComposableField.isBoundSpecifiedArray();
         if(isArray)
         {
-          const bool hasTypeNonZeroSize = this->hasTypeNonZeroSize(curComposableField.getType());
+          const auto& innerSizes = curComposableField.getInnerArraySizes();
+          const bool hasTypeNonZeroSize = this->hasTypeNonZeroSize(curComposableField.getType()) && std::find(innerSizes.begin(), innerSizes.end(), 0) == innerSizes.end();
           if(hasTypeNonZeroSize)
           {
             generateBodyStructCompare(p_compareFunDict, STRUCT_COMPARE_ARRAY_SECTION, p_composedType,
diff --git a/src/easyMockGenerate/src/ComposableField.cpp b/src/easyMockGenerate/src/ComposableField.cpp
index ef9c09c..03a3cd7 100644
--- a/src/easyMockGenerate/src/ComposableField.cpp
+++ b/src/easyMockGenerate/src/ComposableField.cpp
@@ -21,6 +21,7 @@ ComposableField{std::move(p_type), std::move(p_name), {.arraySize = -1}}
 ComposableField::ComposableField(std::shared_ptr<TypeItf> p_type, std::string p_name, ComposableField::attributes p_attrib) :
 ComposableFieldItf{std::move(p_type), std::move(p_name)},
 m_arraySize{p_attrib.arraySize},
+m_innerArraySizes{},
 m_cachedHash{0}
 {}
 
@@ -42,6 +43,7 @@ std::size_t ComposableField::getHash() const noexcept
   }
   std::size_t seed { ComposableFieldItf::getHash() };
   boost::hash_combine(seed, m_arraySize);
+  boost::hash_combine(seed, m_innerArraySizes);
 
   return seed;
 }
@@ -61,7 +63,7 @@ bool ComposableField::isEqual(const Declarator& p_other) const
   {
     return false;
   }
-  const bool arraySizeEqual = this->m_arraySize == otherField->m_arraySize;
+  const bool arraySizeEqual = this->m_arraySize == otherField->m_arraySize && this->m_innerArraySizes == otherField->m_innerArraySizes;
 
   return parentEq && arraySizeEqual;
 }
@@ -102,5 +104,15 @@ int64_t ComposableField::getArraySize() const
   return m_arraySize;
 }
 
+void ComposableField::setInnerArraySizes(std::vector<uint64_t> p_sizes)
+{
+  m_innerArraySizes = std::move(p_sizes);
+}
+
+const std::vector<uint64_t>& ComposableField::getInnerArraySizes() const
+{
+  return m_innerArraySizes;
+}
+
 ComposableField::~ComposableField()
 {}
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 9acc17f..704367b 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1085,6 +1085,7 @@ private:
             arraySize = -1;
           }
           ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize}};
+          sf.setInnerArraySizes(getInnerArraySizes(*typePtr));
           setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
           sf.setFullDeclaration(getFullFieldDeclaration(FD));
           sType->addField(std::move(sf));
@@ -1245,6 +1246,17 @@ private:
     return size;
   }
 
+  std::vector<uint64_t> getInnerArraySizes(const clang::Type &type)
+  {
+    std::vector<uint64_t> sizes {};
+    const clang::ArrayType *arrayType = m_context->getAsArrayType(type.getCanonicalTypeInternal());
+    while(arrayType && (arrayType = m_context->getAsArrayType(arrayType->getElementType())))
+    {
+      sizes.push_back(getArraySize(*arrayType));
+    }
+    return sizes;
+  }
+
   void setDeclaratorDeclareString(const clang::QualType &clangQualType, Declarator* decl, const std::string &newString)
   {
     bool isFuncType = isFunctionType(clangQualType);
-- 
2.43.0


From f4b5f243c655d5d5a75c6db628493ca3ee9fe8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 35/66] fix: C++ types of namespaces and classes are declared
 and told apart with their scope

---
 src/easyMockGenerate/include/TypeItf.h        | 14 ++++++
 src/easyMockGenerate/src/ComposableType.cpp   |  2 +-
 src/easyMockGenerate/src/Enum.cpp             |  2 +-
 src/easyMockGenerate/src/IncompleteType.cpp   |  3 +-
 .../src/LLVMParser/LLVMParser.cpp             | 49 ++++++++++++++++---
 src/easyMockGenerate/src/TypeItf.cpp          | 10 ++++
 src/easyMockGenerate/src/TypedefType.cpp      |  2 +-
 7 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/include/TypeItf.h b/src/easyMockGenerate/include/TypeItf.h
index a41e362..a3ae735 100644
--- a/src/easyMockGenerate/include/TypeItf.h
+++ b/src/easyMockGenerate/include/TypeItf.h
@@ -37,6 +37,19 @@ public:
    */
   const std::string &getName() const;
 
+  /*!
+   * \brief Returns the C++ scope the type is declared in i.e. "::ns::Class::".
+   *
+   * It is empty for the types of the global scope. It takes no part in the comparison and the hash.
+   */
+  const std::string &getScope() const noexcept;
+
+  /*!
+   * \brief Sets the C++ scope the type is declared in.
+   * \see getScope
+   */
+  void setScope(std::string p_scope) noexcept;
+
   /*!
    * \brief Function called by the subclasses to set the type name.
    *
@@ -589,6 +602,7 @@ protected:
   explicit TypeItf(std::string p_name);
 
   TYPEITF_COMMON_CLASS_MEMBERS(m_)
+  std::string m_scope;
 
   /*!
    * \brief Specify that the type is a C structure.
diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index 631d831..73586e0 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -115,7 +115,7 @@ bool ComposableType::isEqual(const TypeItf& p_other) const
 
 std::string ComposableType::getDeclarationPrefix(bool p_naked) const
 {
-  std::string toReturn { getComposableTypeKeyword() + std::string { " " } + m_name };
+  std::string toReturn { getComposableTypeKeyword() + std::string { " " } + getScope() + m_name };
   while(toReturn.back() == ' ')
   {
     toReturn.pop_back();
diff --git a/src/easyMockGenerate/src/Enum.cpp b/src/easyMockGenerate/src/Enum.cpp
index e274fa7..77d3fd7 100644
--- a/src/easyMockGenerate/src/Enum.cpp
+++ b/src/easyMockGenerate/src/Enum.cpp
@@ -56,7 +56,7 @@ bool Enum::isEqual(const TypeItf& p_other) const
 
 std::string Enum::getDeclarationPrefix(bool) const
 {
-  std::string toReturn { std::string {"enum "} + m_name };
+  std::string toReturn { std::string {"enum "} + getScope() + m_name };
   while(toReturn.back() == ' ')
   {
     toReturn.pop_back();
diff --git a/src/easyMockGenerate/src/IncompleteType.cpp b/src/easyMockGenerate/src/IncompleteType.cpp
index 272ee46..735dd35 100644
--- a/src/easyMockGenerate/src/IncompleteType.cpp
+++ b/src/easyMockGenerate/src/IncompleteType.cpp
@@ -8,6 +8,7 @@ m_type{p_typeType},
 m_cachedHash{0}
 {
   setIncompleteType(true);
+  setScope(p_type.getScope());
   setCType(p_type.isCType());
   setEnum(p_type.isEnum());
   setFunction(p_type.isFunctionType());
@@ -33,7 +34,7 @@ const char* IncompleteType::getComposableTypeKeyword() const
 
 std::string IncompleteType::getDeclarationPrefix(bool) const
 {
-  std::string toReturn { getComposableTypeKeyword() + std::string{ " " } + m_name};
+  std::string toReturn { getComposableTypeKeyword() + std::string{ " " } + getScope() + m_name};
   while(toReturn.back() == ' ')
   {
     toReturn.pop_back();
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 704367b..f4c5305 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -506,6 +506,23 @@ private:
     return previousDecl && llvm::isa<clang::DeclaratorDecl>(previousDecl) && previousDecl->getBeginLoc() == func->getBeginLoc();
   }
 
+  /*
+   * The namespaces and classes before the names declared in a context i.e. "::ns::Class::", nothing for the global scope
+   */
+  std::string getScope(const clang::DeclContext* declContext)
+  {
+    std::string scope;
+    for(; declContext && !declContext->isTranslationUnit(); declContext = declContext->getParent())
+    {
+      const auto* namedDecl = llvm::dyn_cast<clang::NamedDecl>(declContext);
+      if(namedDecl && namedDecl->getIdentifier())
+      {
+        scope.insert(0, namedDecl->getNameAsString() + "::");
+      }
+    }
+    return scope.empty() ? scope : "::" + scope;
+  }
+
   std::shared_ptr<const Namespace> getNamespace(const clang::DeclContext* declContext)
   {
     if(!declContext)
@@ -779,6 +796,10 @@ private:
   {
     const clang::TypedefNameDecl *typedefDecl = p_type.getAs<clang::TypedefType>()->getDecl();
     auto typedefType = std::make_shared<TypedefType>(typedefDecl->getNameAsString(), std::move(p_typee));
+    if(m_LO->CPlusPlus)
+    {
+      typedefType->setScope(getScope(typedefDecl->getDeclContext()));
+    }
     clang::QualType underlyingType = typedefDecl->getUnderlyingType();
     // The typedef is directly made from the type named by other typedefs
     while(const auto *otherTypedef = underlyingType->getAs<clang::TypedefType>())
@@ -946,6 +967,10 @@ private:
     const std::string name = ED->getNameAsString();
 
     std::shared_ptr<Enum> enumType = std::make_shared<Enum>(name);
+    if(m_LO->CPlusPlus)
+    {
+      enumType->setScope(getScope(ED->getDeclContext()));
+    }
     for(const auto enumConstantDeclaration : ED->enumerators())
     {
       int64_t enumValue = enumConstantDeclaration->getInitVal().getExtValue();
@@ -992,16 +1017,22 @@ private:
     std::string typeName = RD->getNameAsString();
     std::string typedDefName = getTypedefName(p_type);
 
+    if(!typedDefName.empty() && m_LO->CPlusPlus)
+    {
+      typedDefName = p_type.getAs<clang::TypedefType>()->getDecl()->getQualifiedNameAsString();
+    }
     if(structKnownType.find(typedDefName) != structKnownType.end())
     {
       return structKnownType.at(typedDefName);
     }
-    if(structKnownType.find(typeName) != structKnownType.end())
+    // The same name can be used in other C++ namespaces and classes
+    const std::string knownName = typeName.empty() || !m_LO->CPlusPlus ? typeName : RD->getQualifiedNameAsString();
+    if(structKnownType.find(knownName) != structKnownType.end())
     {
-      return structKnownType.at(typeName);
+      return structKnownType.at(knownName);
     }
 
-    std::string declToCheck = typeName + std::string{"_"} + typedDefName;
+    std::string declToCheck = knownName + std::string{"_"} + typedDefName;
     if(declToCheck.compare("_") != 0)
     {
       if(m_cachedStruct.find(declToCheck) != m_cachedStruct.end())
@@ -1047,13 +1078,17 @@ private:
         sType = classType;
         break;
     }
+    if(m_LO->CPlusPlus)
+    {
+      sType->setScope(getScope(RD->getDeclContext()));
+    }
     if(!typedDefName.empty())
     {
       structKnownType.insert({typedDefName,std::make_shared<IncompleteType>(*sType, incType)});
     }
-    if(!typeName.empty())
+    if(!knownName.empty())
     {
-      structKnownType.insert({typeName, std::make_shared<IncompleteType>(*sType, incType)});
+      structKnownType.insert({knownName, std::make_shared<IncompleteType>(*sType, incType)});
     }
 
     // If the type doesn't have a complete definition, it is forward declared.
@@ -1098,9 +1133,9 @@ private:
       toReturn = makeTypedefType(p_type, std::move(toReturn));
       structKnownType.erase(typedDefName);
     }
-    if(!typeName.empty())
+    if(!knownName.empty())
     {
-      structKnownType.erase(typeName);
+      structKnownType.erase(knownName);
     }
 
     if(declToCheck.compare("_") != 0)
diff --git a/src/easyMockGenerate/src/TypeItf.cpp b/src/easyMockGenerate/src/TypeItf.cpp
index 6839233..c6faad8 100644
--- a/src/easyMockGenerate/src/TypeItf.cpp
+++ b/src/easyMockGenerate/src/TypeItf.cpp
@@ -57,6 +57,16 @@ TypeItf::TypeItf(TypeItf::attributes attrib)
   m_cachedHash = 0;
 }
 
+const std::string &TypeItf::getScope() const noexcept
+{
+  return m_scope;
+}
+
+void TypeItf::setScope(std::string p_scope) noexcept
+{
+  m_scope = std::move(p_scope);
+}
+
 const std::string &TypeItf::getName() const
 {
   return m_name;
diff --git a/src/easyMockGenerate/src/TypedefType.cpp b/src/easyMockGenerate/src/TypedefType.cpp
index f4f5abe..54ecbce 100644
--- a/src/easyMockGenerate/src/TypedefType.cpp
+++ b/src/easyMockGenerate/src/TypedefType.cpp
@@ -106,7 +106,7 @@ TypeItf* TypedefType::getMostDefinedTypee()
 
 std::string TypedefType::getDeclarationPrefix(bool) const
 {
-  return m_name;
+  return getScope() + m_name;
 }
 
 TypedefType::~TypedefType()
-- 
2.43.0


From c9cb1d2c738baf24520530b04c803e9eb35b97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 36/66] fix: only the C++ functions which can be mocked are

---
 .../src/LLVMParser/LLVMParser.cpp             | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index f4c5305..529a55d 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -20,6 +20,7 @@
 
 #include <clang/AST/RecursiveASTVisitor.h>
 #include <clang/AST/DeclBase.h>
+#include <clang/AST/DeclTemplate.h>
 #include <clang/AST/DeclLookups.h>
 #include <clang/AST/DeclContextInternals.h>
 #include <clang/Frontend/CompilerInstance.h>
@@ -159,6 +160,11 @@ public:
       return nullptr;
     }
 
+    if(m_LO->CPlusPlus && !isMockableCppFunction(func))
+    {
+      return nullptr;
+    }
+
     // In C, a function is known by its name only.
     std::string signature = func->getQualifiedNameAsString();
     if(m_LO->CPlusPlus)
@@ -523,6 +529,30 @@ private:
     return scope.empty() ? scope : "::" + scope;
   }
 
+  /*
+   * Only the functions which have a name and are neither templates nor local to a translation unit can be mocked.
+   */
+  bool isMockableCppFunction(const clang::FunctionDecl* func)
+  {
+    if(!func->getDeclName().isIdentifier() || func->isTemplated() || func->getPrimaryTemplate() || func->isDeleted() || func->isInAnonymousNamespace())
+    {
+      return false;
+    }
+    for(const clang::DeclContext* declContext = func->getDeclContext(); declContext; declContext = declContext->getParent())
+    {
+      if(declContext->isFunctionOrMethod() || llvm::isa<clang::ClassTemplateSpecializationDecl>(declContext))
+      {
+        return false;
+      }
+      const auto* record = llvm::dyn_cast<clang::RecordDecl>(declContext);
+      if(record && !record->getIdentifier())
+      {
+        return false;
+      }
+    }
+    return true;
+  }
+
   std::shared_ptr<const Namespace> getNamespace(const clang::DeclContext* declContext)
   {
     if(!declContext)
-- 
2.43.0


From 78d761d43028b5f39c4b0b618fa8147c62168761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 37/66] fix: no crash on C++ types without model, and class
 templates are opaque

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 529a55d..aa6c46c 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -719,6 +719,13 @@ private:
     {
       type = getFromEnumType(clangType, structKnownType);
     }
+    else if (m_LO->CPlusPlus)
+    {
+      // i.e. pointer to member. It is used, but nothing is known about it.
+      type = std::make_shared<StructType>(clangQualType.getAsString(), false);
+      std::static_pointer_cast<StructType>(type)->setForwardDecl(true);
+      type->setImplicit(true);
+    }
     else
     {
       std::fprintf(stderr, "Clang type unexpected here. Contact the owner for bug fixing\n\r");
@@ -1122,10 +1129,12 @@ private:
     }
 
     // If the type doesn't have a complete definition, it is forward declared.
-    sType->setForwardDecl(!RD->isCompleteDefinition());
+    const bool isTemplate = llvm::isa<clang::ClassTemplateSpecializationDecl>(RD);
+    // The instances of the templates aren't looked into either.
+    sType->setForwardDecl(!RD->isCompleteDefinition() || isTemplate);
     sType->setAttributes(getLayoutAttributes(RD));
 
-    if(m_ignoreTypeFieldList.find(typeName) == m_ignoreTypeFieldList.end())
+    if(m_ignoreTypeFieldList.find(typeName) == m_ignoreTypeFieldList.end() && !isTemplate)
     {
       for (clang::FieldDecl *FD:
           RD->fields())
-- 
2.43.0


From 2e8d086490251e9d808eb051dc15f7bb11e4c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 38/66] fix: C++ parameter and return types are declared with
 their scope

---
 .../src/LLVMParser/LLVMParser.cpp             | 81 ++++++++++++++++++-
 1 file changed, 80 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index aa6c46c..1fc3dfd 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -21,6 +21,7 @@
 #include <clang/AST/RecursiveASTVisitor.h>
 #include <clang/AST/DeclBase.h>
 #include <clang/AST/DeclTemplate.h>
+#include <clang/AST/QualTypeNames.h>
 #include <clang/AST/DeclLookups.h>
 #include <clang/AST/DeclContextInternals.h>
 #include <clang/Frontend/CompilerInstance.h>
@@ -441,6 +442,14 @@ private:
       return rv;
     }
 
+    // Neither is it for the members (virtual, static..) and the trailing return types
+    if(m_LO->CPlusPlus && !rvQualType->isFunctionPointerType() &&
+        (func->isCXXClassMember() || rvQualType->isReferenceType() || rvQualType->isRecordType() || needsQualifiedDeclaration(rvQualType) || func->getType()->castAs<clang::FunctionProtoType>()->hasTrailingReturn()))
+    {
+      rv.setDeclareString(getQualifiedDeclaration(rvQualType));
+      return rv;
+    }
+
     /*
      * clang::QualType doesn't have any SourceRange information. The source range is approximated by taking
      * the very beginning of the function declaration and the beginning position of the function name.
@@ -529,6 +538,72 @@ private:
     return scope.empty() ? scope : "::" + scope;
   }
 
+  /*
+   * Whether a type can't be declared with the name of its model alone
+   */
+  bool needsQualifiedDeclaration(clang::QualType type)
+  {
+    if(!m_LO->CPlusPlus)
+    {
+      return false;
+    }
+    while(true)
+    {
+      if(type->isRValueReferenceType() || type->isFunctionType() || type->isArrayType() || type->isMemberPointerType() ||
+          type->isVectorType() || type->isAnyComplexType() || type->isNullPtrType())
+      {
+        return true;
+      }
+      if(const auto* typedefType = type->getAs<clang::TypedefType>())
+      {
+        return !getScope(typedefType->getDecl()->getDeclContext()).empty();
+      }
+      if(!type->isPointerType() && !type->isReferenceType())
+      {
+        break;
+      }
+      type = type->getPointeeType();
+    }
+    const clang::TagDecl* tagDecl = type->getAsTagDecl();
+    return tagDecl && (llvm::isa<clang::ClassTemplateSpecializationDecl>(tagDecl) || !getScope(tagDecl->getDeclContext()).empty());
+  }
+
+  /*
+   * The declaration of a type which is valid in any scope and in front of a name.
+   */
+  std::string getQualifiedDeclaration(const clang::QualType& type)
+  {
+    clang::PrintingPolicy policy{*m_LO};
+    policy.SuppressUnwrittenScope = true;
+    if((type->isPointerType() || type->isReferenceType()) && !type->getAs<clang::TypedefType>())
+    {
+      const std::string declarator = type->isPointerType() ? "*" : type->isLValueReferenceType() ? "&" : "&&";
+      const clang::QualType pointee = type->getPointeeType();
+      const auto* functionType = pointee->getAs<clang::FunctionProtoType>();
+      if(functionType && !pointee->getAs<clang::TypedefType>())
+      {
+        std::string parameters;
+        for(const clang::QualType& parameter : functionType->param_types())
+        {
+          parameters.append(parameters.empty() ? "" : ", ").append(getQualifiedDeclaration(parameter));
+        }
+        if(functionType->isVariadic())
+        {
+          parameters.append(parameters.empty() ? "..." : ", ...");
+        }
+        return "std::remove_cv<" + getQualifiedDeclaration(functionType->getReturnType()) + " (" + declarator + ")(" + parameters + ")" +
+            (functionType->isNothrow() ? " noexcept" : "") + ">::type";
+      }
+    }
+    std::string declaration = clang::TypeName::getFullyQualifiedName(type, *m_context, policy, true);
+    const std::size_t spacePos = declaration.find_last_not_of('&');
+    if(spacePos != std::string::npos && declaration[spacePos] == ' ')
+    {
+      declaration.erase(spacePos, 1);
+    }
+    return declaration.find('(') == std::string::npos ? declaration : "std::remove_cv<" + declaration + ">::type";
+  }
+
   /*
    * Only the functions which have a name and are neither templates nor local to a translation unit can be mocked.
    */
@@ -594,7 +669,11 @@ private:
        * See VoidFunUnnamedPtrParam test for reproduction scenario.
        * See VoidFunEnumFactory (unnamed param) test for reproduction scenario.
        */
-      if(beginLoc.isMacroID() || parameterRawType->isImplicit())
+      if(needsQualifiedDeclaration(paramQualType))
+      {
+        p.setDeclareString(getQualifiedDeclaration(paramQualType));
+      }
+      else if(beginLoc.isMacroID() || parameterRawType->isImplicit())
       {
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
-- 
2.43.0


From 949e3948df16c5c4e42088bd7002eeae03213cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 39/66] fix: no endless recursion when a member function takes
 a pointer to its class

---
 src/easyMockGenerate/src/ComposableType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index 73586e0..110db47 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -56,8 +56,8 @@ std::size_t ComposableType::getHash() const noexcept
   boost::hash_combine(seed, m_attributes);
   for(const auto& function : m_functions)
   {
-    //const auto f_ptr = function.lock();
-    boost::hash_combine(seed, *function);
+    // As in isEqual. The parameters can refer to this very type.
+    boost::hash_combine(seed, function->getFunctionPrototype());
   }
 
   return seed;
-- 
2.43.0


From 5686453907bc7903ada639d86ee843526eddbdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 40/66] fix: mock C++ functions having the same name in one
 header

---
 .../include/CodeGeneratorCTemplate.h          |  1 +
 .../CodeGeneratorCTemplate.cpp                | 30 ++++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 173c7d7..a5e4edb 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -120,6 +120,7 @@ private:
   EasyMock::HashablePointerUnorderedSet<const Enum*> m_generatedTypeEnumSection;
   std::vector<const ComposableType*> m_lateDeclaration;
   std::unordered_set<std::string> m_generatedComposableTypes;
+  std::unordered_set<std::string> m_generatedFunctionNames;
   std::vector<const TypeItf*> m_pointedTypesToGenerate;
   unsigned m_nbComposableTypeBeingGenerated{0};
   std::unordered_map<std::string, const ComposableType*> m_completeComposableTypes;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index cde3ccb..d12bf13 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -271,6 +271,9 @@
 #define FUNCTION_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_RETURN_VALUE)
 #define FUNCTION_TO_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_TO_RETURN_VALUE)
 #define FUNCTION_NAME TEMPLATE_VAR(FUNCTION_NAME_VAR)
+// The name used for what is internal to the mock. Contrary to the name of the function, it is unique.
+#define FUNCTION_UNIQUE_NAME_VAR "FUNCTION_UNIQUE_NAME"
+#define FUNCTION_UNIQUE_NAME TEMPLATE_VAR(FUNCTION_UNIQUE_NAME_VAR)
 #define FUNCTION_ACCESS_SPECIFIER TEMPLATE_VAR(FUNCTION_ACCESS_SPECIFIER_VAR)
 
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE "FUNCTION_NON_QUALIFIED_RETURN_VALUE"
@@ -388,7 +391,7 @@ FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXIST
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectReturnAndOutput"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME \
-FUNCTION_NAME "_ExpectReturnAndOutput_common"
+FUNCTION_UNIQUE_NAME "_ExpectReturnAndOutput_common"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE_PARAM \
 FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_LIST(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
@@ -421,13 +424,13 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 "static easyMock_bool " VERIFY_ALL_MOCK_FUNCTION_NAME "()"
 
 #define FUNCTION_MOCK_DATA_TYPE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_data"
+"_" FUNCTION_UNIQUE_NAME "_data"
 
 #define FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_returnValue"
+"_" FUNCTION_UNIQUE_NAME "_returnValue"
 
 #define FUNCTION_MOCK_DATA_CUR_MATCH_VAR \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
+"_" FUNCTION_UNIQUE_NAME "_match_" PARAMETER_NAME("")
 
 #define CURRENT_DATA_CALL "currentDataCall"
 #define CURRENT_DATA_CALL_MEMBER(member) CURRENT_DATA_CALL "." member
@@ -441,7 +444,7 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
 #define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
-#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
+#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
 #define COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_DECL_STRING)
 #define COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_UNIQUE_NAME)
@@ -608,7 +611,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, "static MockedCppFunction<" FUNCTION_MOCK_DATA_TYPE "> " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_RETURN_VALUE(
-          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
+          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_UNIQUE_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "{}")
           ";"
           CARRIAGE_RETURN
@@ -622,11 +625,11 @@ const char templateText[] =
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
+              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_UNIQUE_NAME " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
               "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(default_res));" CARRIAGE_RETURN
+              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_UNIQUE_NAME ", sizeof(default_res));" CARRIAGE_RETURN
           )
           CARRIAGE_RETURN
         )
@@ -1349,6 +1352,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   m_generateForwardTypes.clear();
   m_lateDeclaration.clear();
   m_generatedComposableTypes.clear();
+  m_generatedFunctionNames.clear();
   m_completeComposableTypes.clear();
   m_pointedTypesToGenerate.clear();
   m_nbComposableTypeBeingGenerated = 0;
@@ -1530,6 +1534,16 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   functionSectionDict->SetValue(FUNCTION_NAME_VAR, *p_elemToMock->getName());
+  std::string uniqueName { *p_elemToMock->getName() };
+  if(p_parentDictionary == m_rootDictionary)
+  {
+    // The functions of other namespaces and classes and the overloaded ones have the same name
+    for(unsigned int idx = 2; !m_generatedFunctionNames.insert(uniqueName).second; ++idx)
+    {
+      uniqueName = *p_elemToMock->getName() + "_" + std::to_string(idx);
+    }
+  }
+  functionSectionDict->SetValue(FUNCTION_UNIQUE_NAME_VAR, uniqueName);
   std::string upperString(*p_elemToMock->getName());
   std::transform(upperString.begin(), upperString.end(), upperString.begin(), ::toupper);
   functionSectionDict->SetValue(FUNCTION_NAME_UPPER, upperString);
-- 
2.43.0


From 965aeee8ab41f774f78c5a4c18e4f72951070d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 41/66] fix: mock static members, nested classes, structs and
 qualified member functions

---
 .../include/FunctionDeclaration.h             | 37 ++++++++++
 .../CodeGeneratorCTemplate.cpp                | 56 +++++++++++++---
 .../src/FunctionDeclaration.cpp               | 30 +++++++++
 .../src/LLVMParser/LLVMParser.cpp             | 67 +++++++++++--------
 4 files changed, 150 insertions(+), 40 deletions(-)

diff --git a/src/easyMockGenerate/include/FunctionDeclaration.h b/src/easyMockGenerate/include/FunctionDeclaration.h
index 9912e3a..eaef4f0 100644
--- a/src/easyMockGenerate/include/FunctionDeclaration.h
+++ b/src/easyMockGenerate/include/FunctionDeclaration.h
@@ -90,6 +90,40 @@ public:
    */
   void setSignature(std::string p_signature) noexcept;
 
+  /*!
+   * \brief Returns the names of the classes the function is a member of, the outermost first.
+   *
+   * It is empty when the function isn't a member function. It takes no part in the comparison and the hash.
+   */
+  const std::vector<std::string>& getClassPath() const noexcept;
+
+  /*!
+   * \brief Sets the names of the classes the function is a member of.
+   * \see getClassPath
+   */
+  void setClassPath(std::vector<std::string> p_classPath) noexcept;
+
+  /*!
+   * \brief Returns whether the function is a static member of a class i.e. it isn't called on an instance.
+   */
+  bool isClassStatic() const noexcept;
+
+  /*!
+   * \brief Sets whether the function is a static member of a class.
+   */
+  void setClassStatic(bool p_value) noexcept;
+
+  /*!
+   * \brief Returns the text which follows the parameters, apart from const i.e. " volatile && noexcept".
+   */
+  const std::string& getTrailingQualifiers() const noexcept;
+
+  /*!
+   * \brief Sets the text which follows the parameters.
+   * \see getTrailingQualifiers
+   */
+  void setTrailingQualifiers(std::string p_qualifiers) noexcept;
+
   virtual ~FunctionDeclaration();
   static const FunctionDeclaration& toFunctionDeclaration(const ElementToMock& elem)
   {
@@ -100,6 +134,9 @@ private:
   std::size_t m_cachedHash;
   std::shared_ptr<const Namespace> m_namespace;
   std::string m_signature;
+  std::vector<std::string> m_classPath;
+  bool m_isClassStatic = false;
+  std::string m_trailingQualifiers;
 };
 
 #endif /* FUNCTIONDECLARATION_H */
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index d12bf13..285f0d7 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -224,7 +224,7 @@
   "namespace EasyMock" CARRIAGE_RETURN \
   "{" CARRIAGE_RETURN \
   TEMPLATE_INCL_SECTION(NAMESPACE_BEGIN_SECTION) CARRIAGE_RETURN \
-  IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "namespace " FUNCTION_CLASS_NAME CARRIAGE_RETURN "{" CARRIAGE_RETURN ) \
+  IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, TEMPLATE_VAR(FUNCTION_CLASS_NAMESPACE_BEGIN_VAR)) \
   "namespace " FUNCTION_NAME CARRIAGE_RETURN \
   "{" \
   )
@@ -232,7 +232,7 @@
 #define NAMESPACE_IF_CPP_END \
   IF_SECTION_EXISTS(CPP_ONLY_SECTION, \
   "} // namespace " FUNCTION_NAME CARRIAGE_RETURN \
-  IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "} // namespace " FUNCTION_CLASS_NAME CARRIAGE_RETURN ) \
+  IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, TEMPLATE_VAR(FUNCTION_CLASS_NAMESPACE_END_VAR)) \
   TEMPLATE_INCL_SECTION(NAMESPACE_END_SECTION) CARRIAGE_RETURN \
   "} // namespace EasyMock" \
   )
@@ -274,6 +274,13 @@
 // The name used for what is internal to the mock. Contrary to the name of the function, it is unique.
 #define FUNCTION_UNIQUE_NAME_VAR "FUNCTION_UNIQUE_NAME"
 #define FUNCTION_UNIQUE_NAME TEMPLATE_VAR(FUNCTION_UNIQUE_NAME_VAR)
+#define FUNCTION_INSTANCE_TYPE_VAR "FUNCTION_INSTANCE_TYPE"
+#define FUNCTION_INSTANCE_TYPE TEMPLATE_VAR(FUNCTION_INSTANCE_TYPE_VAR)
+#define FUNCTION_INSTANCE_SECTION "FUNCTION_INSTANCE_SECTION"
+#define FUNCTION_CLASS_NAMESPACE_BEGIN_VAR "FUNCTION_CLASS_NAMESPACE_BEGIN"
+#define FUNCTION_CLASS_NAMESPACE_END_VAR "FUNCTION_CLASS_NAMESPACE_END"
+#define FUNCTION_TRAILING_QUALIFIERS_VAR "FUNCTION_TRAILING_QUALIFIERS"
+#define FUNCTION_TRAILING_QUALIFIERS TEMPLATE_VAR(FUNCTION_TRAILING_QUALIFIERS_VAR)
 #define FUNCTION_ACCESS_SPECIFIER TEMPLATE_VAR(FUNCTION_ACCESS_SPECIFIER_VAR)
 
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE "FUNCTION_NON_QUALIFIED_RETURN_VALUE"
@@ -379,7 +386,7 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
-IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
+IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION, FUNCTION_INSTANCE_TYPE "* instance" \
                   IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
@@ -442,7 +449,7 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") FUNCTION_TRAILING_QUALIFIERS
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
 #define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
@@ -576,8 +583,8 @@ const char templateText[] =
         GENERATE_COMMENT CARRIAGE_RETURN
         IF_SECTION_EXISTS(C_ONLY_SECTION, "typedef ")
         "struct " IF_SECTION_EXISTS(CPP_ONLY_SECTION, FUNCTION_MOCK_DATA_TYPE) " {" CARRIAGE_RETURN
-        IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
-          "    ::" FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
+        IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION,
+          "    " FUNCTION_INSTANCE_TYPE "* instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
@@ -646,7 +653,7 @@ const char templateText[] =
         "        return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         CARRIAGE_RETURN
-        IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
+        IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION,
         "    if(" CURRENT_DATA_CALL_MEMBER("instance") " && " CURRENT_DATA_CALL_MEMBER("instance") " != this)" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         "        std::ostringstream errorMessage{};" CARRIAGE_RETURN
@@ -716,7 +723,7 @@ const char templateText[] =
         FUNCTION_EXPECT_AND_RETURN_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", "))
+                IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION, "instance" IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", "))
                 FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_HARDCODED_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, "easyMock_null")
               ");" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -725,7 +732,7 @@ const char templateText[] =
              FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE CARRIAGE_RETURN
              "{" CARRIAGE_RETURN
              "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", "))
+                      IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION, "instance" IF_SECTION_EXISTS(INSTANCE_SEPARATOR_SECTION, ", "))
                       FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
                   ");" CARRIAGE_RETURN
              "}" CARRIAGE_RETURN
@@ -735,7 +742,7 @@ const char templateText[] =
         "{" CARRIAGE_RETURN
         "    " FUNCTION_MOCK_DATA_TYPE " " MOCKED_DATA ";" CARRIAGE_RETURN
         CARRIAGE_RETURN
-        IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
+        IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION,
             "    " MOCKED_DATA_MEMBER("instance") " = instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
@@ -1525,7 +1532,33 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   if(parentData)
   {
     functionSectionDict->AddSectionDictionary(IS_FUNCTION_CLASS_NAME);
-    functionSectionDict->SetValue(FUNCTION_CLASS_NAME_VAR, parentData->getName());
+    std::vector<std::string> classPath = p_elemToMock->getClassPath();
+    if(classPath.empty())
+    {
+      classPath.push_back(parentData->getName());
+    }
+    std::string className;
+    std::string namespaceBegin;
+    std::string namespaceEnd;
+    for(const std::string& name : classPath)
+    {
+      className.append(className.empty() ? "" : "::").append(name);
+      namespaceBegin.append("namespace " + name + "\n{\n");
+      namespaceEnd.insert(0, "} // namespace " + name + "\n");
+    }
+    functionSectionDict->SetValue(FUNCTION_CLASS_NAME_VAR, className);
+    functionSectionDict->SetValue(FUNCTION_CLASS_NAMESPACE_BEGIN_VAR, namespaceBegin);
+    functionSectionDict->SetValue(FUNCTION_CLASS_NAMESPACE_END_VAR, namespaceEnd);
+    if(!p_elemToMock->isClassStatic())
+    {
+      std::string instanceType = "::" + className;
+      for(const Namespace* curNamespace = p_elemToMock->getNamespace().get(); !curNamespace->isGlobal(); curNamespace = curNamespace->m_parent.get())
+      {
+        instanceType.insert(0, "::" + curNamespace->m_name);
+      }
+      functionSectionDict->AddSectionDictionary(FUNCTION_INSTANCE_SECTION);
+      functionSectionDict->SetValue(FUNCTION_INSTANCE_TYPE_VAR, instanceType);
+    }
     generateDeclarationOfUsedType(p_parentDictionary, parentData.get(), false);
   }
   if(p_elemToMock->isClassConst())
@@ -1533,6 +1566,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     functionSectionDict->AddSectionDictionary(IS_FUNCTION_CLASS_CONST);
   }
 
+  functionSectionDict->SetValue(FUNCTION_TRAILING_QUALIFIERS_VAR, p_elemToMock->getTrailingQualifiers());
   functionSectionDict->SetValue(FUNCTION_NAME_VAR, *p_elemToMock->getName());
   std::string uniqueName { *p_elemToMock->getName() };
   if(p_parentDictionary == m_rootDictionary)
diff --git a/src/easyMockGenerate/src/FunctionDeclaration.cpp b/src/easyMockGenerate/src/FunctionDeclaration.cpp
index 816a661..ce0ae07 100644
--- a/src/easyMockGenerate/src/FunctionDeclaration.cpp
+++ b/src/easyMockGenerate/src/FunctionDeclaration.cpp
@@ -90,5 +90,35 @@ ElementToMock_Type FunctionDeclaration::getMockType() const
   return ETS_function;
 }
 
+const std::vector<std::string>& FunctionDeclaration::getClassPath() const noexcept
+{
+  return m_classPath;
+}
+
+void FunctionDeclaration::setClassPath(std::vector<std::string> p_classPath) noexcept
+{
+  m_classPath = std::move(p_classPath);
+}
+
+bool FunctionDeclaration::isClassStatic() const noexcept
+{
+  return m_isClassStatic;
+}
+
+void FunctionDeclaration::setClassStatic(bool p_value) noexcept
+{
+  m_isClassStatic = p_value;
+}
+
+const std::string& FunctionDeclaration::getTrailingQualifiers() const noexcept
+{
+  return m_trailingQualifiers;
+}
+
+void FunctionDeclaration::setTrailingQualifiers(std::string p_qualifiers) noexcept
+{
+  m_trailingQualifiers = std::move(p_qualifiers);
+}
+
 FunctionDeclaration::~FunctionDeclaration() {
 }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1fc3dfd..55dcd7e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -39,30 +39,6 @@
 #include <optional>
 #include <sstream>
 
-template<typename T>
-class UniqueStdSharePtrObjectSet
-{
-public:
-  UniqueStdSharePtrObjectSet() = default;
-  UniqueStdSharePtrObjectSet(const UniqueStdSharePtrObjectSet&) = delete;
-  UniqueStdSharePtrObjectSet(UniqueStdSharePtrObjectSet&&) = delete;
-
-  void addObject(std::shared_ptr<T> newObject)
-  {
-    auto newObjectHash = newObject->getHash();
-    for(const auto &obj : m_list)
-    {
-      if(obj->getHash() == newObjectHash)
-      {
-        return;
-      }
-    }
-    m_list.push_back(std::move(newObject));
-  }
-private:
-  std::vector<std::shared_ptr<T>> m_list;
-};
-
 namespace
 {
 std::string trim(const std::string &s) {
@@ -86,7 +62,7 @@ std::string trim(const std::string &s) {
  * If we don't store the ClassType object in the function object as weak_ptr, this creates an
  * indirect memory leak.
  */
-UniqueStdSharePtrObjectSet<ClassType> globalListOfClasses;
+std::vector<std::shared_ptr<ComposableType>> globalListOfClasses;
 }
 
 struct ParserConfig
@@ -191,8 +167,7 @@ public:
     bool isClassConst = false;
     if(func->isCXXClassMember())
     {
-      auto parent = func->getParent();
-      const clang::QualType qualType = m_context->getRecordType(parent->getOuterLexicalRecordContext());
+      const clang::QualType qualType = m_context->getRecordType(llvm::cast<clang::CXXMethodDecl>(func)->getParent());
       structKnownTypeMap structKnownType;
       auto type = getEasyMocktype(qualType, structKnownType, false);
       assert(type->isComposableType());
@@ -225,7 +200,8 @@ public:
     }
     // Any of the declarations can make the function inline or static, whichever one is being visited.
     bool isInline = std::any_of(func->redecls_begin(), func->redecls_end(), [](const clang::FunctionDecl* redecl) { return redecl->isInlined(); });
-    bool isStatic = std::any_of(func->redecls_begin(), func->redecls_end(), [](const clang::FunctionDecl* redecl) { return redecl->isStatic(); });
+    // The static members of a class are visible outside of their file
+    bool isStatic = !func->isCXXClassMember() && std::any_of(func->redecls_begin(), func->redecls_end(), [](const clang::FunctionDecl* redecl) { return redecl->isStatic(); });
     bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody();
     f->setVariadic(func->isVariadic());
     f->setInlined(isInline);
@@ -234,11 +210,43 @@ public:
     f->setOriginFile(originFileFullInfo);
     f->setSignature(std::move(signature));
     f->setClassConst(isClassConst);
+    if(m_LO->CPlusPlus)
+    {
+      setCppProperties(func, *f);
+    }
     setFunctionAttribute(func, *f);
 
     return f;
   }
 
+  void setCppProperties(const clang::FunctionDecl* func, FunctionDeclaration& easyMockFun)
+  {
+    std::vector<std::string> classPath;
+    for(const clang::DeclContext* declContext = func->getDeclContext(); declContext->isRecord(); declContext = declContext->getParent())
+    {
+      classPath.insert(classPath.begin(), llvm::cast<clang::RecordDecl>(declContext)->getNameAsString());
+    }
+    easyMockFun.setClassPath(std::move(classPath));
+    const auto* method = llvm::dyn_cast<clang::CXXMethodDecl>(func);
+    easyMockFun.setClassStatic(method && method->isStatic());
+
+    std::string trailingQualifiers;
+    const auto* functionType = func->getType()->castAs<clang::FunctionProtoType>();
+    if(functionType->isVolatile())
+    {
+      trailingQualifiers.append(" volatile");
+    }
+    if(functionType->getRefQualifier() != clang::RQ_None)
+    {
+      trailingQualifiers.append(functionType->getRefQualifier() == clang::RQ_LValue ? " &" : " &&");
+    }
+    if(functionType->isNothrow())
+    {
+      trailingQualifiers.append(" noexcept");
+    }
+    easyMockFun.setTrailingQualifiers(std::move(trailingQualifiers));
+  }
+
   void setAstContext(const clang::ASTContext &ctx)
   {
     m_context = &ctx;
@@ -1190,13 +1198,14 @@ private:
       case CLASS:
         auto classType = std::make_shared<ClassType>(typeName, isEmbeddedInOtherType);
         incType = IncompleteType::Type::CLASS;
-        globalListOfClasses.addObject(classType);
         sType = classType;
         break;
     }
     if(m_LO->CPlusPlus)
     {
       sType->setScope(getScope(RD->getDeclContext()));
+      // Any of them can have functions
+      globalListOfClasses.push_back(sType);
     }
     if(!typedDefName.empty())
     {
-- 
2.43.0


From dbbcbecd27c9bf823329b974316c14bc1f3a48fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 42/66] fix: C++ parameters are stored by copy and references
 by address

---
 .../CodeGeneratorCTemplate.cpp                | 80 ++++++++++++-------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 285f0d7..06fe74b 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -81,8 +81,6 @@
 #define FUNCTION_PARAM_PTR_SECTION_SEPARATOR FUNCTION_PARAM_PTR_SECTION "_separator"
 #define FUNCTION_PARAM_TYPE "FUNCTION_PARAM_TYPE"
 #define FUNCTION_PARAM_NON_QUALIFIED_TYPE "FUNCTION_PARAM_NON_QUALIFIED_TYPE"
-#define FUNCTION_PARAM_DEREFERENCED_TYPE "FUNCTION_PARAM_DEREFERENCED_TYPE"
-#define PARAMETER_RAW_TYPE "PARAMETER_RAW_TYPE"
 #define FUNCTION_PARAM_NAME "TYPEDEF_PARAM_NAME"
 #define FUNCTION_MATCHER_PARAM_NAME "FUNCTION_MATCHER_PARAM_NAME"
 #define FUNCTION_RETURN_VALUE_PARAM_SECTION "FUNCTION_RETURN_VALUE_PARAM_SECTION"
@@ -250,6 +248,12 @@
   STR_TO_PRINT \
   TEMPLATE_END_SECTION(FUNCTION_RETURN_VALUE_PARAM_SECTION)
 
+// What follows return in the mock
+#define RETURN_DEFAULT_RES \
+  IF_RETURN_VALUE( \
+    IF_SECTION_EXISTS(REGULAR_RETURN_SECTION, " default_res") \
+    IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, " static_cast<" FUNCTION_RETURN_VALUE_TYPE ">(*default_res)"))
+
 /*!
  * \brief add STR_TO_PRINT if the SECTION given as parameter to this macro
  * exists.
@@ -266,8 +270,6 @@
 #define PARAMETER_OUT_SIZE_VAR PARAMETER_NAME(MOCK_OUT_PREFIX) "_size"
 #define PARAMETER_TYPE TEMPLATE_VAR(FUNCTION_PARAM_TYPE)
 #define PARAMETER_NON_QUALIFIED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_NON_QUALIFIED_TYPE)
-#define PARAMETER_DEREFERENCED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_DEREFERENCED_TYPE)
-#define TEMPLATE_PARAMETER_RAW_TYPE TEMPLATE_VAR(PARAMETER_RAW_TYPE)
 #define FUNCTION_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_RETURN_VALUE)
 #define FUNCTION_TO_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_TO_RETURN_VALUE)
 #define FUNCTION_NAME TEMPLATE_VAR(FUNCTION_NAME_VAR)
@@ -286,9 +288,6 @@
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE "FUNCTION_NON_QUALIFIED_RETURN_VALUE"
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_NON_QUALIFIED_RETURN_VALUE)
 
-#define FUNCTION_DEREFERENCED_RETURN_VALUE "FUNCTION_DEREFERENCED_RETURN_VALUE"
-#define FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_DEREFERENCED_RETURN_VALUE)
-
 #define PRINT_CMP_ARRAY_IDX \
   IF_SECTION_EXISTS(STRUCT_PRINT_IDX_SECTION, "at idx == %d")
 
@@ -301,9 +300,8 @@ PARAMETER_TYPE " " PARAMETER_NAME(PREFIX) TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTI
 #define DECLARE_NON_QUALIFIED_PARAMETER(PREFIX) \
 PARAMETER_NON_QUALIFIED_TYPE " " PARAMETER_NAME(PREFIX) TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
 
-#define DECLARE_REFERENCE_MEMBERS(SPACES, PARAM_NAME, DEREFERENCED_PARAM_TYPE, UNQUALIFIED_DEREFERENCED_PARAM_TYPE) \
-UNQUALIFIED_DEREFERENCED_PARAM_TYPE " default_" PARAM_NAME ";" CARRIAGE_RETURN \
-SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ default_" PARAM_NAME " }"
+#define DECLARE_REFERENCE_MEMBER(PARAM_NAME, PARAM_TYPE) \
+"std::remove_reference<" PARAM_TYPE ">::type* " PARAM_NAME " = nullptr"
 
 /*!
  * \brief Helper macro to print all declaration of the parameters of a
@@ -410,7 +408,14 @@ FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIS
 "void " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "(" FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE_PARAM ")"
 
 #define FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM \
-FUNCTION_PARAM_CALL(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") "to_return") IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_CALL
+TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION) \
+  IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "static_cast<" PARAMETER_TYPE ">(" PARAMETER_NAME("") ")") \
+  IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION, PARAMETER_NAME("")) \
+  TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION_SEPARATOR) \
+    ", " \
+  TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION_SEPARATOR) \
+TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION) \
+IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") IF_SECTION_EXISTS(REGULAR_RETURN_SECTION, "to_return") IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "static_cast<" FUNCTION_RETURN_VALUE_TYPE ">(to_return)")) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_CALL
 
 #define INIT_ALL_MOCK_FUNCTION_NAME \
 MOCK_FRAMEWORK_NAME "_initAllMocksInThisHeader"
@@ -507,7 +512,9 @@ const char templateText[] =
         "#include <MockedFunction.h>" CARRIAGE_RETURN
         "#include <cstring.h>" CARRIAGE_RETURN
         IF_SECTION_EXISTS(CPP_ONLY_SECTION,
+        "#include <memory>" CARRIAGE_RETURN
         "#include <sstream>" CARRIAGE_RETURN
+        "#include <type_traits>" CARRIAGE_RETURN
         "#include <tuple>" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
@@ -588,7 +595,7 @@ const char templateText[] =
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
-          "    " DECLARE_REFERENCE_MEMBERS("    ", PARAMETER_NAME(""), PARAMETER_DEREFERENCED_TYPE, TEMPLATE_PARAMETER_RAW_TYPE) "; // Reference member section" CARRIAGE_RETURN
+          "    " DECLARE_REFERENCE_MEMBER(PARAMETER_NAME(""), PARAMETER_TYPE) "; // Reference member section" CARRIAGE_RETURN
         )
         IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
           "    " DECLARE_NON_QUALIFIED_PARAMETER("") "; // Regular member section" CARRIAGE_RETURN
@@ -602,12 +609,12 @@ const char templateText[] =
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION)
         IF_RETURN_VALUE(
-          IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "    " DECLARE_REFERENCE_MEMBERS("    ", FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE, FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE, FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE)  "; // Reference return section")
+          IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "    " DECLARE_REFERENCE_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE, FUNCTION_RETURN_VALUE_TYPE) "; // Reference return section")
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION, "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " " FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION) "; // Regular return section")
           CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_PTR_SECTION)
-        "    " DECLARE_PARAMETER(MOCK_OUT_PREFIX) ";" CARRIAGE_RETURN
+        "    " DECLARE_NON_QUALIFIED_PARAMETER(MOCK_OUT_PREFIX) ";" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
         "    easyMock_size_t " PARAMETER_OUT_SIZE_VAR ";" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
@@ -632,25 +639,28 @@ const char templateText[] =
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_UNIQUE_NAME " };" CARRIAGE_RETURN
+              "    " DECLARE_REFERENCE_MEMBER("default_res", FUNCTION_RETURN_VALUE_TYPE) ";" CARRIAGE_RETURN
+              "    default_res = std::addressof(dummyRes_" FUNCTION_UNIQUE_NAME ");" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
-              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
+              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(CPP_ONLY_SECTION, " = dummyRes_" FUNCTION_UNIQUE_NAME) ";" CARRIAGE_RETURN
+              IF_SECTION_EXISTS(C_ONLY_SECTION,
               "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_UNIQUE_NAME ", sizeof(default_res));" CARRIAGE_RETURN
+              )
           )
           CARRIAGE_RETURN
         )
         "    if(!MockedFunction_addActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "))" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         "        easyMock_addError(printCallStack, \"Error : unexpected call of '%s'." IF_RETURN_VALUE(" " FUNCTION_NAME " is returning a random value.") "\", MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
-        "        return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
+        "        return" RETURN_DEFAULT_RES ";" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         CARRIAGE_RETURN
         "    " FUNCTION_MOCK_DATA_TYPE " " CURRENT_DATA_CALL ";" CARRIAGE_RETURN
         "    if (!MockedFunction_getCurrentCallParam(&" TEMPLATE_MOCKED_FUN_CLASS ", &" CURRENT_DATA_CALL "))" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         "        easyMock_addError(printCallStack, \"BUG IN EASYMOCK: CONTACT THE DEVELOPER TO FIX THIS\");" CARRIAGE_RETURN
-        "        return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
+        "        return" RETURN_DEFAULT_RES ";" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         CARRIAGE_RETURN
         IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION,
@@ -682,7 +692,7 @@ const char templateText[] =
         "    {" CARRIAGE_RETURN
         "        std::ostringstream errorMessage{};" CARRIAGE_RETURN
         "        auto& curCallVal = " PARAMETER_NAME("") ";" CARRIAGE_RETURN
-        "        auto& expectedCallVal = " CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
+        "        auto& expectedCallVal = " IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "*") CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
         "        auto& matcher = " CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ";" CARRIAGE_RETURN
         "        bool error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
@@ -705,7 +715,7 @@ const char templateText[] =
         "        if(cstring_compare_const_char(&currentCall, curFuncCall) != 0)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
         "            easyMock_addError(printCallStack, \"Error : got call to '%s',  but was expecting call to '%s'\", MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), cstring_c_str(&currentCall));" CARRIAGE_RETURN
-        "            return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
+        "            return" RETURN_DEFAULT_RES ";" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_PTR_SECTION)
@@ -714,7 +724,7 @@ const char templateText[] =
         "        easyMock_memcpy((void*)" PARAMETER_NAME("") ", (void*)" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ", " IF_SECTION_EXISTS(FUNCTION_VOID_PTR_OUT_SECTION, CURRENT_DATA_CALL_MEMBER(PARAMETER_OUT_SIZE_VAR)) IF_SECTION_EXISTS(FUNCTION_NON_VOID_PTR_OUT_SECTION, "sizeof(*" PARAMETER_NAME("") ")" ) ");" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
-        IF_RETURN_VALUE(CARRIAGE_RETURN "    return default_res;" CARRIAGE_RETURN)
+        IF_RETURN_VALUE(CARRIAGE_RETURN "    return") RETURN_DEFAULT_RES IF_RETURN_VALUE(";" CARRIAGE_RETURN)
         "}" CARRIAGE_RETURN
         CARRIAGE_RETURN
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, TEMPLATE_INCL_SECTION(NAMESPACE_END_SECTION) CARRIAGE_RETURN
@@ -746,8 +756,11 @@ const char templateText[] =
             "    " MOCKED_DATA_MEMBER("instance") " = instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
-        IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ")); // normal member section")
-        IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") "; // Reference member section")
+        IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ")); // normal member section")
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") "; // normal member section")
+        )
+        IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = std::addressof(" PARAMETER_NAME("") "); // Reference member section")
         CARRIAGE_RETURN
         "    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) " = " FUNCTION_PARAM_MATCH_VAR ";" CARRIAGE_RETURN
         CARRIAGE_RETURN
@@ -766,7 +779,7 @@ const char templateText[] =
 
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) ", (void*)&to_return, sizeof(to_return));" CARRIAGE_RETURN CARRIAGE_RETURN)
-          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = to_return;" CARRIAGE_RETURN CARRIAGE_RETURN)
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = " IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "std::addressof(to_return)") IF_SECTION_EXISTS(REGULAR_RETURN_SECTION, "to_return") ";" CARRIAGE_RETURN CARRIAGE_RETURN)
         )
         "    MockedFunction_addExpectedCall(&" TEMPLATE_MOCKED_FUN_CLASS ", &mockedData);" CARRIAGE_RETURN
         "    easyMock_addCall(MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
@@ -1584,7 +1597,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
 
   const ReturnValue& returnValue = *p_elemToMock->getReturnValue();
   const std::string returnTypeStr = getDeclaratorString(returnValue);
-  std::string nonQualDereferencedRetTypeStr = getNonQualifiedDereferencedDeclaratorString(returnValue);
+  const std::string nonQualDereferencedRetTypeStr = getNonQualifiedDereferencedDeclaratorString(returnValue);
   functionSectionDict->SetValue(FUNCTION_RETURN_VALUE, returnTypeStr);
   functionSectionDict->SetValue(FUNCTION_TO_RETURN_VALUE, returnTypeStr);
   const TypeItf* rvType = returnValue.getType();
@@ -1595,13 +1608,14 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   registerTypeDef(rvType);
   generateDeclarationOfUsedType(p_parentDictionary, rvType, false);
   const Pointer *nonQualifiedReturnValuePointer = rvType->unqualify()->asPointer();
-  functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, nonQualDereferencedRetTypeStr);
+  functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, m_isCpp ? "std::remove_cv<std::remove_reference<" + returnTypeStr + ">::type>::type" : nonQualDereferencedRetTypeStr);
   if(nonQualifiedReturnValuePointer)
   {
     const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
     const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
     if(functionType && !rvType->containsTypeDef())
     {
+      functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, nonQualDereferencedRetTypeStr);
       generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
       generateExtraDecl(functionSectionDict, EXTRA_TOP_LEVEL_DECL_SECTION, EXTRA_TOP_DECL_TEMPLATE_NAME, functionType);
     }
@@ -1621,7 +1635,6 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
       returnValParamDict->AddSectionDictionary(REGULAR_RETURN_SECTION);
     }
 
-    returnValParamDict->SetValue(FUNCTION_DEREFERENCED_RETURN_VALUE, getDereferencedType(*rvType).getFullDeclarationName());
     if(nonQualifiedReturnValuePointer)
     {
       const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
@@ -1711,23 +1724,28 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
       generateComposedTypedCompareSection(composableType, prepend, declare);
     }
     functionParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
-    functionParamSection->SetValue(FUNCTION_PARAM_DEREFERENCED_TYPE, getDereferencedType(*paramType).getFullDeclarationName());
     if(nonQualifiedParamRefType)
     {
       functionParamSection->AddSectionDictionary(REFERENCE_MEMBER_SECTION);
-      functionParamSection->SetValue(PARAMETER_RAW_TYPE, rawType->getName());
     }
     else
     {
       functionParamSection->AddSectionDictionary(REGULAR_MEMBER_SECTION);
     }
-    if(!nonQualifiedParamPtrType)
+    if(m_isCpp)
+    {
+      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, "std::remove_cv<" + argType + ">::type");
+    }
+    else if(!nonQualifiedParamPtrType)
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, dereferencedNonQualifiedArgType);
     }
     else
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
+    }
+    if(nonQualifiedParamPtrType && !m_isCpp)
+    {
       const TypeItf *paramPtrPointedType = getRawType(nonQualifiedParamPtrType);
       const FunctionType *ft = paramPtrPointedType->asFunctionType();
       if(ft && !paramType->containsTypeDef())
@@ -1778,8 +1796,8 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
           ptrSectionAdded = true;
         }
         ctemplate::TemplateDictionary* newPtrParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_PTR_SECTION);
-        //No need to add the FUNCTION_PARAM_NON_QUALIFIED_TYPE because we will not generate output pointer for const
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
+        newPtrParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, m_isCpp ? "std::remove_cv<" + argType + ">::type" : argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
         const TypeItf* definedPointedType = getMostDefinedType(pointedType);
-- 
2.43.0


From 8deacaaae02e81da88568a677aa9d20ca861f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 43/66] fix: friend functions and functions returning pointers
 to functions in C++ mocks

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp       | 6 +++---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 06fe74b..e402650 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1613,9 +1613,9 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   {
     const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
     const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
-    if(functionType && !rvType->containsTypeDef())
+    // In C++, the declaration of the return type is complete
+    if(functionType && !rvType->containsTypeDef() && !m_isCpp)
     {
-      functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, nonQualDereferencedRetTypeStr);
       generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
       generateExtraDecl(functionSectionDict, EXTRA_TOP_LEVEL_DECL_SECTION, EXTRA_TOP_DECL_TEMPLATE_NAME, functionType);
     }
@@ -1639,7 +1639,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     {
       const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
       const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
-      if(functionType && !rvType->containsTypeDef())
+      if(functionType && !rvType->containsTypeDef() && !m_isCpp)
       {
         generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
         generateExtraDecl(returnValParamDict, EXTRA_DECL_SECTION, EXTRA_DECL_TEMPLATE_NAME, functionType);
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 55dcd7e..85cdea6 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -450,9 +450,9 @@ private:
       return rv;
     }
 
-    // Neither is it for the members (virtual, static..) and the trailing return types
-    if(m_LO->CPlusPlus && !rvQualType->isFunctionPointerType() &&
-        (func->isCXXClassMember() || rvQualType->isReferenceType() || rvQualType->isRecordType() || needsQualifiedDeclaration(rvQualType) || func->getType()->castAs<clang::FunctionProtoType>()->hasTrailingReturn()))
+    // Neither is it for the members (virtual, static..), the friends and the trailing return types
+    if(m_LO->CPlusPlus &&
+        (func->isCXXClassMember() || func->getFriendObjectKind() != clang::Decl::FOK_None || rvQualType->isFunctionPointerType() || rvQualType->isReferenceType() || rvQualType->isRecordType() || needsQualifiedDeclaration(rvQualType) || func->getType()->castAs<clang::FunctionProtoType>()->hasTrailingReturn()))
     {
       rv.setDeclareString(getQualifiedDeclaration(rvQualType));
       return rv;
-- 
2.43.0


From ae9429b79c86859c40b6a990f886032f3c391ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 44/66] fix: do not reset the C++ mocks after their destruction
 at exit

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index e402650..581df1f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -824,7 +824,8 @@ const char templateText[] =
         CARRIAGE_RETURN
         "static void __attribute__((destructor)) " MOCK_FRAMEWORK_NAME "_unregister_this_header()" CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
-        "    " RESET_ALL_MOCK_FUNCTION_NAME "();" CARRIAGE_RETURN
+        // In C++, the mocked functions are already destroyed
+        IF_SECTION_EXISTS(C_ONLY_SECTION, "    " RESET_ALL_MOCK_FUNCTION_NAME "();" CARRIAGE_RETURN)
         "    " MOCK_FRAMEWORK_NAME "_unregisterMockedFile(&mockedRegister);" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN;
 
-- 
2.43.0


From 64c5284cd791a7d54cdc1bfae38c5b27b8a6ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 45/66] fix: assign the output parameters of C++ mocks which
 cannot be copied as memory

---
 .../include/MockedFunction.h                  | 26 +++++++++++++++++++
 .../CodeGeneratorCTemplate.cpp                |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/easyMockFramework/include/MockedFunction.h b/src/easyMockFramework/include/MockedFunction.h
index 3146a3c..2252051 100644
--- a/src/easyMockFramework/include/MockedFunction.h
+++ b/src/easyMockFramework/include/MockedFunction.h
@@ -16,6 +16,8 @@
 
 #ifdef __cplusplus
 
+#include <easyMock_glueStdlib.h>
+#include <type_traits>
 #include <vector>
 #include <string>
 /*!
@@ -51,6 +53,30 @@ struct MockedCppFunction
   std::vector<T> mockedData;
 };
 
+/*!
+ * \brief Whether the objects of a type can only be copied by assigning them.
+ */
+template<typename T, typename = void>
+struct MockedFunction_mustBeAssigned : std::false_type {};
+
+template<typename T>
+struct MockedFunction_mustBeAssigned<T, decltype(void(sizeof(T)))> : std::integral_constant<bool, !std::is_trivially_copyable<T>::value && std::is_copy_assignable<T>::value> {};
+
+/*!
+ * \brief Copies what an output parameter points to.
+ */
+template<typename T>
+typename std::enable_if<!MockedFunction_mustBeAssigned<T>::value>::type MockedFunction_copyOutput(T* dest, T* src, easyMock_size_t size)
+{
+  easyMock_memcpy((void*)dest, (void*)src, size);
+}
+
+template<typename T>
+typename std::enable_if<MockedFunction_mustBeAssigned<T>::value>::type MockedFunction_copyOutput(T* dest, T* src, easyMock_size_t)
+{
+  *dest = *src;
+}
+
 template<typename T>
 unsigned int MockedFunction_getCurrentIdx(MockedCppFunction<T>* mf)
 {
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 581df1f..7ed635d 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -721,7 +721,7 @@ const char templateText[] =
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_PTR_SECTION)
         "    if(" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ")" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        easyMock_memcpy((void*)" PARAMETER_NAME("") ", (void*)" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ", " IF_SECTION_EXISTS(FUNCTION_VOID_PTR_OUT_SECTION, CURRENT_DATA_CALL_MEMBER(PARAMETER_OUT_SIZE_VAR)) IF_SECTION_EXISTS(FUNCTION_NON_VOID_PTR_OUT_SECTION, "sizeof(*" PARAMETER_NAME("") ")" ) ");" CARRIAGE_RETURN
+        "        " IF_SECTION_EXISTS(C_ONLY_SECTION, "easyMock_memcpy((void*)") IF_SECTION_EXISTS(CPP_ONLY_SECTION, "MockedFunction_copyOutput(") PARAMETER_NAME("") ", " IF_SECTION_EXISTS(C_ONLY_SECTION, "(void*)") CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ", " IF_SECTION_EXISTS(FUNCTION_VOID_PTR_OUT_SECTION, CURRENT_DATA_CALL_MEMBER(PARAMETER_OUT_SIZE_VAR)) IF_SECTION_EXISTS(FUNCTION_NON_VOID_PTR_OUT_SECTION, "sizeof(*" PARAMETER_NAME("") ")" ) ");" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
         IF_RETURN_VALUE(CARRIAGE_RETURN "    return") RETURN_DEFAULT_RES IF_RETURN_VALUE(";" CARRIAGE_RETURN)
-- 
2.43.0


From 76268e8bdc877860606a985ee0dc8a64dcc88cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 46/66] fix: no endless loop on declarations which begin with a
 macro, and tokens instead of regexes to find the declared types

---
 .../src/LLVMParser/LLVMParser.cpp             | 268 ++++++++++--------
 1 file changed, 155 insertions(+), 113 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 85cdea6..2266f59 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -381,57 +381,6 @@ private:
     return parametersList;
   }
 
-  void removeFromString(std::string &declString, std::string macroStr, bool hasParameter)
-  {
-    /*
-     * It is needed to escape "(" and ")" in case there are some so that they are not taken as group inside the
-     * std::regex
-     */
-    static std::regex leftParentRegex{"\\("};
-    static std::regex rightParentRegex{"\\)"};
-    macroStr = std::regex_replace(macroStr, leftParentRegex, "\\(");
-    macroStr = std::regex_replace(macroStr, rightParentRegex, "\\)");
-    /*
-     * The macro string doesn't contain any parameter. Matching any parameter is added by hand.
-     */
-    if(hasParameter)
-    {
-      macroStr.append("\\(.*\\)");
-    }
-    declString = std::regex_replace(declString, std::regex{macroStr}, "");
-  }
-
-  void removeAttr(std::string &declString, const clang::Attr* attr)
-  {
-    clang::SourceLocation sourceBegin = attr->getLocation();
-    if(sourceBegin.isMacroID())
-    {
-      clang::CharSourceRange charSourceRange = m_SM->getImmediateExpansionRange(sourceBegin);
-      clang::StringRef attributeStringRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-      std::string macroStr = attributeStringRef.str();
-      /*
-       * If the immediateExpansionRange is empty, try to get it after getting the immediateMacroCallerLoc.
-       *
-       * The assumption is that whenever a macro is defining 2 function attributes e.g.
-       * #define __section(S) __attribute__ ((section(#S)))
-       * #define __cold       __attribute__((cold))
-       * #define __multiAttr  __section(.multiAttr.text) __cold
-       *
-       * Then it is needed to go on the immediateMacroCallerLoc.
-       *
-       * This isn't working in all the cases though. Not sure why...
-       */
-      if(macroStr.empty())
-      {
-        sourceBegin = m_SM->getImmediateMacroCallerLoc(sourceBegin);
-        charSourceRange = m_SM->getImmediateExpansionRange(sourceBegin);
-        attributeStringRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-        macroStr = attributeStringRef.str();
-      }
-      removeFromString(declString, std::move(macroStr), false);
-    }
-  }
-
   ReturnValue getFunctionReturnValue(const clang::FunctionDecl* func)
   {
     const std::string funName = getFunctionName(func);
@@ -465,51 +414,15 @@ private:
     clang::SourceLocation beginSourceLocation = func->getBeginLoc();
     clang::SourceLocation startOfFunNameLocation = func->getNameInfo().getBeginLoc();
     std::string declString = getDeclareString(beginSourceLocation, startOfFunNameLocation, false);
-    /*
-     * Loop through all the function attributes and determine whether they are declared using a macro.
-     * If they are declared using a macro, just remove the macro call from the declString.
-     */
+    // The macros which expand to more than attributes and specifiers cannot be used without adding these ones to the mock
     for(const auto& attr : func->attrs())
     {
-      removeAttr(declString, attr);
-    }
-    static std::regex removeAttrRegex{"__attribute__[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
-
-    /*
-     * Loop through all the token of the declaration and verifies if it expands to __attribute((<something>)).
-     * If so, remove the token.
-     * This is needed because some attribute like "noreturn" aren't part of the function attribute list for
-     * LLVM.
-     */
-    clang::SourceLocation itrSource = beginSourceLocation;
-    while(m_SM->isBeforeInTranslationUnit(itrSource,startOfFunNameLocation))
-    {
-      //itrSource = clang::Lexer::GetBeginningOfToken(itrSource, *m_SM, *m_LO);
-      clang::Token rawToken;
-      clang::Lexer::getRawToken(itrSource, rawToken, *m_SM, *m_LO, true);
-
-      clang::CharSourceRange dumpSourceRange = clang::Lexer::getAsCharRange(rawToken.getLocation(), *m_SM, *m_LO);
-      dumpSourceRange.setEnd(rawToken.getEndLoc());
-      clang::StringRef dumpStrRef = clang::Lexer::getSourceText(dumpSourceRange, *m_SM, *m_LO);
-      const std::string currentTokenStr{dumpStrRef.str()};
-      if(m_ctxt.hasMacroDefine(currentTokenStr))
+      const clang::SourceLocation attrLocation = attr->getLocation();
+      if(attrLocation.isMacroID() && containsToken(declString, clang::Lexer::getImmediateMacroName(attrLocation, *m_SM, *m_LO).str()))
       {
-        const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
-        std::string macroStr = md.getDefinition();
-        std::smatch match;
-        if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex))
-        {
-          removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
-        }
+        declString.clear();
       }
-      itrSource = itrSource.getLocWithOffset(currentTokenStr.length());
     }
-
-    declString = std::regex_replace(declString, removeAttrRegex, "");
-    eraseInString(declString, "inline ");
-    eraseInString(declString, "extern ");
-    eraseInString(declString, "static ");
-    declString = trim(declString);
     setDeclaratorDeclareString(rvQualType, &rv, declString);
 
     return rv;
@@ -655,7 +568,6 @@ private:
   {
     Parameter::Vector vectParam;
     unsigned nbParam = func->getNumParams();
-    std::string funcDecl = getDeclareString(func->getBeginLoc(), func->getEndLoc(), false);
 
     for(unsigned paramIdx = 0; paramIdx < nbParam; paramIdx++)
     {
@@ -697,29 +609,169 @@ private:
     return vectParam;
   }
 
-  std::string removeComments(std::string declareString)
+  struct SourceToken
+  {
+    std::string text;
+    bool hasSpaceBefore;
+    bool isIdentifier;
+    bool isDirective;
+  };
+  using SourceTokens = std::vector<SourceToken>;
+
+  /*
+   * The tokens of a source text i.e. without the comments and the line continuations
+   */
+  SourceTokens getTokens(const clang::SourceLocation& location, llvm::StringRef buffer, const char* begin, const char* end)
   {
-    static std::regex oneLineCommentRegex{"//.*\n"};
-    declareString = std::regex_replace(declareString, oneLineCommentRegex, "");
-    for(auto& c : declareString)
+    SourceTokens tokens;
+    clang::Lexer lexer(location, *m_LO, buffer.begin(), begin, buffer.end());
+    const unsigned endOffset = end - buffer.begin();
+    clang::Token token;
+    while(true)
     {
-      if(c == '\n')
+      lexer.LexFromRawLexer(token);
+      const unsigned nextOffset = lexer.getBufferLocation() - buffer.begin();
+      const bool isAfterEnd = token.is(clang::tok::eof) || nextOffset - token.getLength() >= endOffset;
+      const bool hasSpaceBefore = token.hasLeadingSpace() || token.isAtStartOfLine();
+      if(isAfterEnd)
       {
-        c = ' ';
+        // What follows the last token
+        tokens.push_back({"", hasSpaceBefore, false, false});
+        return tokens;
       }
+      const std::string text = removeLineContinuations(std::string{lexer.getBufferLocation() - token.getLength(), token.getLength()});
+      tokens.push_back({text, hasSpaceBefore, token.is(clang::tok::raw_identifier), token.is(clang::tok::hash) && token.isAtStartOfLine()});
     }
-    static std::regex commentRegex{"/\\*.*\\*/"};
-    declareString = std::regex_replace(declareString, commentRegex, "");
+  }
 
-    return declareString;
+  SourceTokens getTokens(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc)
+  {
+    const std::pair<clang::FileID, unsigned> begin = m_SM->getDecomposedLoc(startLoc);
+    const std::pair<clang::FileID, unsigned> end = m_SM->getDecomposedLoc(endLoc);
+    const llvm::StringRef buffer = m_SM->getBufferData(begin.first);
+    return getTokens(m_SM->getLocForStartOfFile(begin.first), buffer, buffer.data() + begin.second, buffer.data() + end.second);
+  }
+
+  std::string removeLineContinuations(std::string text)
+  {
+    for(size_t pos = text.find('\\'); pos != std::string::npos; pos = text.find('\\', pos + 1))
+    {
+      const size_t endPos = text.find_first_not_of(" \t\r", pos + 1);
+      if(endPos != std::string::npos && text[endPos] == '\n')
+      {
+        text.erase(pos, endPos + 1 - pos);
+        --pos;
+      }
+    }
+    return text;
+  }
+
+  bool containsToken(const std::string& text, const std::string& tokenText)
+  {
+    const SourceTokens tokens = getTokens(clang::SourceLocation{}, text, text.data(), text.data() + text.size());
+    return std::any_of(tokens.begin(), tokens.end(), [&tokenText](const SourceToken& token) { return token.isIdentifier && token.text == tokenText; });
+  }
+
+  /*
+   * The index after the closing token which matches the opening one at the given index.
+   */
+  static size_t skipBalanced(const SourceTokens& tokens, size_t idx, const std::string& open, const std::string& close)
+  {
+    unsigned depth = 0;
+    for(; idx < tokens.size(); ++idx)
+    {
+      if(tokens[idx].text == open)
+      {
+        ++depth;
+      }
+      else if(tokens[idx].text == close && --depth == 0)
+      {
+        return idx + 1;
+      }
+    }
+    return idx;
+  }
+
+  /*
+   * Removes the tokens which aren't part of a type i.e. the attributes, the storage classes and the macros made of them.
+   */
+  SourceTokens removeSpecifiers(const SourceTokens& tokens, unsigned macroDepth = 0)
+  {
+    static const std::unordered_set<std::string> specifiers{"inline", "__inline", "__inline__", "extern", "static", "_Noreturn", "friend"};
+    static const std::unordered_set<std::string> attributes{"__attribute__", "__attribute"};
+    SourceTokens result;
+    size_t idx = 0;
+    bool isSpaceRemoved = false;
+    while(idx < tokens.size())
+    {
+      const SourceToken& token = tokens[idx];
+      const bool isFollowedByParenthesis = idx + 1 < tokens.size() && tokens[idx + 1].text == "(";
+      const bool isMacro = token.isIdentifier && m_ctxt.hasMacroDefine(token.text) && macroDepth < 32;
+      const MacroDefinition* macro = isMacro ? &m_ctxt.getMacroDefinition(token.text) : nullptr;
+      size_t nextIdx = idx;
+      if(specifiers.count(token.text) != 0)
+      {
+        nextIdx = idx + 1;
+      }
+      else if(attributes.count(token.text) != 0)
+      {
+        nextIdx = skipBalanced(tokens, idx + 1, "(", ")");
+      }
+      else if(token.text == "[" && idx + 1 < tokens.size() && tokens[idx + 1].text == "[")
+      {
+        nextIdx = skipBalanced(tokens, idx, "[", "]");
+      }
+      else if(macro && (!macro->hasParameters() || isFollowedByParenthesis) && isSpecifierMacro(*macro, macroDepth))
+      {
+        nextIdx = macro->hasParameters() ? skipBalanced(tokens, idx + 1, "(", ")") : idx + 1;
+      }
+      if(nextIdx == idx)
+      {
+        result.push_back(token);
+        result.back().hasSpaceBefore |= isSpaceRemoved;
+        isSpaceRemoved = false;
+        ++idx;
+      }
+      else
+      {
+        isSpaceRemoved = true;
+        idx = nextIdx;
+      }
+    }
+    return result;
+  }
+
+  bool isSpecifierMacro(const MacroDefinition& macro, unsigned macroDepth)
+  {
+    const std::string& definition = macro.getDefinition();
+    const SourceTokens tokens = removeSpecifiers(getTokens(clang::SourceLocation{}, definition, definition.data(), definition.data() + definition.size()), macroDepth + 1);
+    return tokens.size() == 1;
   }
 
   std::string getDeclareString(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc, bool fieldDecl)
   {
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
-    clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-    std::string declareString = strRef.str();
+    charSourceRange = clang::Lexer::makeFileCharRange(charSourceRange, *m_SM, *m_LO);
+    if(charSourceRange.isInvalid())
+    {
+      return "";
+    }
+    const SourceTokens tokens = removeSpecifiers(getTokens(charSourceRange.getBegin(), charSourceRange.getEnd()));
+    std::string declareString;
+    for(const SourceToken& token : tokens)
+    {
+      if(token.isDirective)
+      {
+        // What is part of the declaration depends on the directives
+        return "";
+      }
+      if(token.hasSpaceBefore && !declareString.empty())
+      {
+        declareString.push_back(' ');
+      }
+      declareString.append(token.text);
+    }
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
@@ -755,7 +807,6 @@ private:
         declareString.pop_back();
       }
     }
-    declareString = removeComments(std::move(declareString));
     declareString = trim(std::move(declareString));
 
     return declareString;
@@ -1433,15 +1484,6 @@ private:
     return func->getNameInfo().getName().getAsString();
   }
 
-  void eraseInString(std::string &string,const std::string& toErase)
-  {
-    size_t pos = string.find(toErase);
-    if(pos != std::string::npos)
-    {
-        string.erase(pos, toErase.length());
-    }
-  }
-
   std::string getTypedefName(const clang::Type &type)
   {
     const clang::TypedefType* TDT = type.getAs<clang::TypedefType>();
-- 
2.43.0


From fc14808c644ea60d990d80e3c22b1e7103ac14a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 47/66] fix: the arguments of the generated function attributes
 are exactly the declared ones

---
 .../CodeGeneratorCTemplate.cpp                |   8 +-
 .../src/LLVMParser/LLVMParser.cpp             | 137 ++++++++++++------
 2 files changed, 99 insertions(+), 46 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 7ed635d..bd8d4fe 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -454,7 +454,7 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") FUNCTION_TRAILING_QUALIFIERS
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") FUNCTION_TRAILING_QUALIFIERS
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
 #define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
@@ -632,7 +632,7 @@ const char templateText[] =
         )
         CARRIAGE_RETURN
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, TEMPLATE_INCL_SECTION(NAMESPACE_BEGIN_SECTION) CARRIAGE_RETURN)
-        TEMPLATE_FUNCTION_TO_BE_MOCKED CARRIAGE_RETURN
+        FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_TO_BE_MOCKED CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    easyMock_bool printCallStack = easyMock_printCallStack();" CARRIAGE_RETURN
         "    easyMock_bool checkCallsOrder = easyMock_checkCallsOrder();" CARRIAGE_RETURN
@@ -939,7 +939,7 @@ const char headerFileTemplate[] =
         IF_SECTION_EXISTS(GENERATE_MOCKED_TYPE_SECTION,
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, TEMPLATE_INCL_SECTION(NAMESPACE_BEGIN_SECTION) CARRIAGE_RETURN
           )
-          TEMPLATE_FUNCTION_TO_BE_MOCKED ";" CARRIAGE_RETURN
+          FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_TO_BE_MOCKED ";" CARRIAGE_RETURN
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, TEMPLATE_INCL_SECTION(NAMESPACE_END_SECTION) CARRIAGE_RETURN
           )
         )
@@ -1478,7 +1478,7 @@ void CodeGeneratorCTemplate::generateFunctionAttributes(const std::shared_ptr<co
       for(const std::string& funAttrParam : funAttrParams)
       {
         ctemplate::TemplateDictionary *funAttrParamDict = funAttrParamsList->AddSectionDictionary(FUNCTION_ATTR_PARAMETER_LIST);
-        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, funAttrParam);
+        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, name == "section" || name == "__section__" ? '"' + funAttrParam + '"' : funAttrParam);
       }
     }
   }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2266f59..d23ebb7 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -274,7 +274,8 @@ private:
 
   void setFunctionAttribute(const clang::FunctionDecl* clangFunc, FunctionDeclaration& easyMockFun)
   {
-    for(const auto& attr : clangFunc->attrs())
+    // The last declaration has the attributes of all of them
+    for(const auto& attr : clangFunc->getMostRecentDecl()->attrs())
     {
       const clang::IdentifierInfo* identifierInfo = attr->getAttrName();
       if(!identifierInfo)
@@ -285,7 +286,7 @@ private:
         continue;
       }
       std::string attrName = identifierInfo->getName().str();
-      FunctionAttribute::ParametersList parametersList = getFunAttrParamList(clangFunc, attr);
+      FunctionAttribute::ParametersList parametersList = getFunAttrParamList(attr);
       FunctionAttribute functionAttribute{std::move(attrName), std::move(parametersList)};
 
       easyMockFun.addAttribute(std::move(functionAttribute));
@@ -314,7 +315,88 @@ private:
     return parametersList;
   }
 
-  FunctionAttribute::ParametersList getFunAttrParamList(const clang::FunctionDecl* clangFunc, const clang::Attr *attr)
+  /*
+   * Adds the parameters of an attribute i.e. name(param1, param2), __attribute__((name(param1, param2))) or [[name(param1)]].
+   * The commas inside the strings and the expressions are part of a parameter.
+   */
+  static void addAttrParams(const std::string& attributeString, FunctionAttribute::ParametersList& parametersList)
+  {
+    const std::string gnuPrefix{"__attribute__(("};
+    const size_t gnuPos = attributeString.find(gnuPrefix);
+    const size_t openPos = attributeString.find('(', gnuPos == std::string::npos ? 0 : gnuPos + gnuPrefix.size());
+    const size_t closePos = attributeString.rfind(gnuPos == std::string::npos ? ")" : ")))");
+    if(openPos == std::string::npos || closePos == std::string::npos || closePos < openPos)
+    {
+      return;
+    }
+    std::string curParam;
+    unsigned depth = 0;
+    bool inString = false;
+    for(size_t curPos = openPos + 1; curPos < closePos; ++curPos)
+    {
+      const char curChar = attributeString[curPos];
+      if(curChar == ',' && depth == 0 && !inString)
+      {
+        parametersList.push_back(trim(curParam));
+        curParam.clear();
+        continue;
+      }
+      curParam.push_back(curChar);
+      if(inString && curChar == '\\')
+      {
+        curParam.push_back(attributeString[++curPos]);
+      }
+      else if(curChar == '"')
+      {
+        inString = !inString;
+      }
+      else if(!inString && (curChar == '(' || curChar == ')'))
+      {
+        depth += curChar == '(' ? 1 : -1;
+      }
+    }
+    curParam = trim(curParam);
+    // Clang prints the optional messages which aren't given
+    if(!parametersList.empty() || curParam != "\"\"")
+    {
+      parametersList.push_back(curParam);
+    }
+  }
+
+  /*
+   * The source of an attribute i.e. name(param1, param2), nothing if it contains macros
+   */
+  std::string getAttrString(const clang::Attr *attr)
+  {
+    const clang::SourceLocation attrBegin = attr->getRange().getBegin();
+    const clang::SourceLocation attrEnd = attr->getRange().getEnd();
+    const clang::SourceLocation begin = m_SM->getSpellingLoc(attrBegin);
+    const clang::SourceLocation end = clang::Lexer::getLocForEndOfToken(m_SM->getSpellingLoc(attrEnd), 0, *m_SM, *m_LO);
+    if(m_SM->getFileID(begin) != m_SM->getFileID(end) || attrBegin.isMacroID() != attrEnd.isMacroID() || m_SM->getFileOffset(end) < m_SM->getFileOffset(begin))
+    {
+      return "";
+    }
+    if(m_SM->isMacroBodyExpansion(attrBegin))
+    {
+      const std::string macroName = clang::Lexer::getImmediateMacroName(attrBegin, *m_SM, *m_LO).str();
+      if(!m_ctxt.hasMacroDefine(macroName) || m_ctxt.getMacroDefinition(macroName).hasParameters())
+      {
+        return "";
+      }
+    }
+    std::string attributeString;
+    for(const SourceToken& token : getTokens(begin, end))
+    {
+      if(token.isDirective || (!attributeString.empty() && token.isIdentifier && m_ctxt.hasMacroDefine(token.text)))
+      {
+        return "";
+      }
+      attributeString.append(token.hasSpaceBefore && !attributeString.empty() ? " " : "").append(token.text);
+    }
+    return trim(attributeString);
+  }
+
+  FunctionAttribute::ParametersList getFunAttrParamList(const clang::Attr *attr)
   {
     FunctionAttribute::ParametersList parametersList{};
     /*
@@ -323,13 +405,13 @@ private:
      * - format
      * - section
      *
-     * The fallback case attempt to parse the string to determine the attribute name
-     * and its parameter. If something more precise is needed, a new else case must be added
+     * The fallback case attempt to parse the string to determine the parameters of the attribute.
+     * The string is the one of the source, or the one printed by clang when the source contains macros. If something more precise is needed, a new else case must be added
      * to the code.
      * This fallback case works for the majority of the case we have seen so far.
      */
-    const clang::FormatAttr *formatAttr = attr->getKind() == clang::attr::Kind::Format ? clangFunc->getAttr<clang::FormatAttr>() : nullptr;
-    const clang::SectionAttr *sectionAttr = attr->getKind() == clang::attr::Kind::Section ? clangFunc->getAttr<clang::SectionAttr>() : nullptr;
+    const clang::FormatAttr *formatAttr = llvm::dyn_cast<clang::FormatAttr>(attr);
+    const clang::SectionAttr *sectionAttr = llvm::dyn_cast<clang::SectionAttr>(attr);
     if(formatAttr)
     {
       parametersList = getFormatAttrParamList(formatAttr);
@@ -340,43 +422,14 @@ private:
     }
     else
     {
-      clang::SourceRange sourceRange = attr->getRange();
-      clang::SourceLocation sourceBegin = sourceRange.getBegin();
-      clang::SourceLocation sourceEnd = sourceRange.getEnd();
-      if(sourceBegin.isMacroID())
-      {
-        sourceBegin = m_SM->getSpellingLoc(sourceBegin);
-      }
-      if(sourceEnd.isMacroID())
-      {
-        sourceEnd = m_SM->getSpellingLoc(sourceEnd);
-      }
-      clang::CharSourceRange charSourceRange{};
-      charSourceRange.setBegin(sourceBegin);
-      charSourceRange.setEnd(sourceEnd);
-      clang::StringRef attributeStringRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-      std::string attributeString = attributeStringRef.str();
-      size_t curPos = attributeString.find_first_of('(');
-      while(curPos != std::string::npos)
+      std::string attributeString = getAttrString(attr);
+      if(attributeString.empty())
       {
-        curPos += 1;
-        size_t commaPos = attributeString.find_first_of(',', curPos);
-        if(commaPos != std::string::npos)
-        {
-          size_t paramLen = commaPos - curPos;
-          std::string curParam = attributeString.substr(curPos,paramLen);
-          curPos += paramLen; //Put the position on the comma
-          curParam = trim(curParam);
-          parametersList.push_back(curParam);
-        }
-        else
-        {
-          std::string curParam = attributeString.substr(curPos);
-          curParam = trim(curParam);
-          parametersList.push_back(curParam);
-          curPos = std::string::npos;
-        }
+        llvm::raw_string_ostream attributeStream(attributeString);
+        attr->printPretty(attributeStream, m_context->getPrintingPolicy());
+        attributeStream.flush();
       }
+      addAttrParams(attributeString, parametersList);
     }
     return parametersList;
   }
-- 
2.43.0


From 18be6e3ed9bee934a38f754a9dac3e08eb14a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 48/66] fix: generate the macros with empty or named variadic
 parameters and with their last definition

---
 src/easyMockGenerate/include/MacroDefinition.h     | 2 +-
 src/easyMockGenerate/src/ElementToMockContext.cpp  | 4 ++--
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/include/MacroDefinition.h b/src/easyMockGenerate/include/MacroDefinition.h
index 95b9427..17a6fae 100644
--- a/src/easyMockGenerate/include/MacroDefinition.h
+++ b/src/easyMockGenerate/include/MacroDefinition.h
@@ -38,7 +38,7 @@ public:
   /*!
    * \brief Returns the parameters list of the macro.
    *
-   * The list will be empty if the macro doesn't have any parameter.
+   * The list is empty for the object-like macros and contains one empty parameter for the function-like macros without parameter.
    */
   const ParameterList& getParameters() const noexcept;
 
diff --git a/src/easyMockGenerate/src/ElementToMockContext.cpp b/src/easyMockGenerate/src/ElementToMockContext.cpp
index 05e21b1..1993569 100644
--- a/src/easyMockGenerate/src/ElementToMockContext.cpp
+++ b/src/easyMockGenerate/src/ElementToMockContext.cpp
@@ -2,7 +2,7 @@
 
 void ElementToMockContext::addMacroDefine(std::string p_id, std::string p_definition)
 {
-  addMacroDefine(std::move(p_id), std::vector{std::string{}}, std::move(p_definition));
+  addMacroDefine(std::move(p_id), std::vector<std::string>{}, std::move(p_definition));
 }
 
 void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::string> p_parameters, std::string p_definition)
@@ -13,7 +13,7 @@ void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::str
 void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::string> p_parameters, std::string p_definition, std::string p_originFile)
 {
   std::string copy_id = p_id;
-  m_macroDefinition.try_emplace(std::move(p_id), std::move(copy_id), std::move(p_parameters), std::move(p_definition), std::move(p_originFile));
+  m_macroDefinition.insert_or_assign(std::move(p_id), MacroDefinition{std::move(copy_id), std::move(p_parameters), std::move(p_definition), std::move(p_originFile)});
 }
 
 void ElementToMockContext::deleteMacroDefine(const std::string &p_id)
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index d23ebb7..4e386f1 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1609,6 +1609,15 @@ public:
           parameters.emplace_back(paramStr);
         }
       }
+      if(macroInfo->isGNUVarargs())
+      {
+        parameters.back().append("...");
+      }
+      if(parameters.empty())
+      {
+        // "#define MACRO()" isn't "#define MACRO"
+        parameters.emplace_back("");
+      }
     }
     unsigned numToken = macroInfo->getNumTokens();
     for(unsigned i = 0; i < numToken; i++)
-- 
2.43.0


From 86d8ace2d0a9e5274825f59c346a47d29d9fdcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 49/66] fix: types of the parameters which are spelled through
 macros

---
 .../src/LLVMParser/LLVMParser.cpp             | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 4e386f1..2702ee6 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -646,16 +646,22 @@ private:
       {
         p.setDeclareString(getQualifiedDeclaration(paramQualType));
       }
-      else if(beginLoc.isMacroID() || parameterRawType->isImplicit())
+      else
       {
-        std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
+        const bool isImplicit = parameterRawType->isImplicit();
+        std::string declareString;
+        // What is written is only the type when the name of the parameter comes last
+        if((beginLoc.isMacroID() || isImplicit) && !paramName.empty() && param->getEndLoc() == param->getLocation() && param->getLocation().isFileID())
+        {
+          declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
+        }
+        if(declareString.empty() && (isImplicit || hasUnmodelledPointeeQualifier(paramQualType)))
+        {
+          // volatile and restrict aren't represented by the type model
+          declareString = (isImplicit ? param->getOriginalType() : paramQualType).getAsString();
+        }
         setDeclaratorDeclareString(paramQualType, &p, declareString);
       }
-      else if(hasUnmodelledPointeeQualifier(paramQualType))
-      {
-        // volatile and restrict aren't represented by the type model
-        setDeclaratorDeclareString(paramQualType, &p, paramQualType.getAsString());
-      }
       vectParam.push_back(std::move(p));
     }
 
-- 
2.43.0


From ad035c043d0ae6ad50f786946ddade220ca50387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 50/66] fix: the data types of the C++ mocks of several headers
 do not clash

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index bd8d4fe..ce582d6 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -588,6 +588,8 @@ const char templateText[] =
 
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
         GENERATE_COMMENT CARRIAGE_RETURN
+        // The mocks of other headers can contain functions of the same name
+        IF_SECTION_EXISTS(CPP_ONLY_SECTION, "namespace {" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(C_ONLY_SECTION, "typedef ")
         "struct " IF_SECTION_EXISTS(CPP_ONLY_SECTION, FUNCTION_MOCK_DATA_TYPE) " {" CARRIAGE_RETURN
         IF_SECTION_EXISTS(FUNCTION_INSTANCE_SECTION,
@@ -620,6 +622,7 @@ const char templateText[] =
         TEMPLATE_END_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
         "}" IF_SECTION_EXISTS(C_ONLY_SECTION, " " FUNCTION_MOCK_DATA_TYPE) ";" CARRIAGE_RETURN
+        IF_SECTION_EXISTS(CPP_ONLY_SECTION, "}" CARRIAGE_RETURN)
         CARRIAGE_RETURN
         "static " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_SIGNATURE ";" CARRIAGE_RETURN
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
-- 
2.43.0


From 346645f1fd4350faa9bf682ba3a5b9e43842cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 51/66] fix: the header guards of the mocks differ for all file
 names

---
 .../CodeGeneratorCTemplate.cpp                | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ce582d6..c420073 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -4,6 +4,7 @@
  */
 #include <cstdio>
 #include <algorithm>
+#include <cctype>
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
 #include <boost/algorithm/string/replace.hpp>
@@ -54,7 +55,7 @@
 
 #define MOCKED_HEADER_FILENAME "MOCKED_HEADER_FILENAME"
 #define MOCKED_FILE_NAME_WITHOUT_EXT "MOCKED_FILE_NAME_WITHOUT_EXT"
-#define MOCKED_FILE_NAME_WITHOUT_EXT_UPPER "MOCKED_FILE_NAME_WITHOUT_EXT_UPPER"
+#define MOCKED_FILE_NAME_GUARD "MOCKED_FILE_NAME_GUARD"
 #define FUNCTION_SECTION "FUNCTION_SECTION"
 #define FUNCTION_PARAM_SECTION "FUNCTION_PARAM_SECTION"
 #define FUNCTION_PARAM_PTR_SECTION "FUNCTION_PARAM_PTR_SECTION"
@@ -859,8 +860,8 @@ const char headerFileTemplate[] =
         "// SOFTWARE." CARRIAGE_RETURN
         CARRIAGE_RETURN
         "// THIS FILE IS AUTOGENERATED BY EASYMOCKGENERATE! PLEASE DO NOT EDIT" CARRIAGE_RETURN
-        "#ifndef _" TEMPLATE_VAR(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER) "_" MOCK_FRAMEWORK_NAME_UPPER "_H" CARRIAGE_RETURN
-        "#define _" TEMPLATE_VAR(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER) "_" MOCK_FRAMEWORK_NAME_UPPER "_H" CARRIAGE_RETURN
+        "#ifndef _" TEMPLATE_VAR(MOCKED_FILE_NAME_GUARD) "_" MOCK_FRAMEWORK_NAME_UPPER "_H" CARRIAGE_RETURN
+        "#define _" TEMPLATE_VAR(MOCKED_FILE_NAME_GUARD) "_" MOCK_FRAMEWORK_NAME_UPPER "_H" CARRIAGE_RETURN
         CARRIAGE_RETURN
         IF_SECTION_EXISTS(INCLUDE_MOCKED_HEADER_SECTION,
           "#include \"" TEMPLATE_VAR(MOCKED_HEADER_FILENAME) "\"" CARRIAGE_RETURN
@@ -1370,6 +1371,30 @@ void CodeGeneratorCTemplate::fillInMacroDefinition(const ElementToMockContext& p
   }
 }
 
+/*
+ * Different file names have different guards, whichever characters they are made of
+ */
+static std::string getHeaderGuardName(const std::string& fileName)
+{
+  std::string guardName;
+  for(const char character : fileName)
+  {
+    if(std::isalnum(static_cast<unsigned char>(character)) && static_cast<unsigned char>(character) < 0x80)
+    {
+      guardName.push_back(character);
+    }
+    else if(character == '_')
+    {
+      guardName.append("__");
+    }
+    else
+    {
+      guardName.append("_" + std::to_string(static_cast<unsigned char>(character)) + "_");
+    }
+  }
+  return guardName;
+}
+
 void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mockedHeader, const ElementToMockContext &p_ctxt)
 {
   m_generateTypes.clear();
@@ -1384,10 +1409,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT, p_mockedHeader.substr(0, p_mockedHeader.find_last_of(".")));
 
   const auto& fList = p_ctxt.getElementToMock();
-  std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
-  std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
-  std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
-  m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
+  m_rootDictionary->SetValue(MOCKED_FILE_NAME_GUARD, getHeaderGuardName(p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."))));
   // The declarations of a function can use other, compatible, types i.e. "int f(int[2]); int f(int *);"
   auto getFunctionId = [](const FunctionDeclaration& fun)
   {
-- 
2.43.0


From 5c0b3e2d4e05d46892a8540834dfb97bfb237e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 52/66] fix: types whose names coincide when they are joined or
 whose typedef is the tag of another are told apart

---
 .../src/LLVMParser/LLVMParser.cpp               | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2702ee6..9f65d25 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1255,9 +1255,11 @@ private:
     {
       typedDefName = p_type.getAs<clang::TypedefType>()->getDecl()->getQualifiedNameAsString();
     }
-    if(structKnownType.find(typedDefName) != structKnownType.end())
+    // A typedef can have the name of the tag of another type
+    const std::string knownTypedefName = "typedef " + typedDefName;
+    if(structKnownType.find(knownTypedefName) != structKnownType.end())
     {
-      return structKnownType.at(typedDefName);
+      return structKnownType.at(knownTypedefName);
     }
     // The same name can be used in other C++ namespaces and classes
     const std::string knownName = typeName.empty() || !m_LO->CPlusPlus ? typeName : RD->getQualifiedNameAsString();
@@ -1266,8 +1268,9 @@ private:
       return structKnownType.at(knownName);
     }
 
-    std::string declToCheck = knownName + std::string{"_"} + typedDefName;
-    if(declToCheck.compare("_") != 0)
+    // No name has a space
+    std::string declToCheck = knownName + std::string{" "} + typedDefName;
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) != m_cachedStruct.end())
       {
@@ -1319,7 +1322,7 @@ private:
     }
     if(!typedDefName.empty())
     {
-      structKnownType.insert({typedDefName,std::make_shared<IncompleteType>(*sType, incType)});
+      structKnownType.insert({knownTypedefName,std::make_shared<IncompleteType>(*sType, incType)});
     }
     if(!knownName.empty())
     {
@@ -1368,14 +1371,14 @@ private:
     if(!typedDefName.empty())
     {
       toReturn = makeTypedefType(p_type, std::move(toReturn));
-      structKnownType.erase(typedDefName);
+      structKnownType.erase(knownTypedefName);
     }
     if(!knownName.empty())
     {
       structKnownType.erase(knownName);
     }
 
-    if(declToCheck.compare("_") != 0)
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) == m_cachedStruct.end())
       {
-- 
2.43.0


From dcc76c2508239764c55b7e7c60e48804ff27844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 53/66] fix: ignore the fields of the structs and unions which
 only have a typedef name

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 9f65d25..f92b02d 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1335,7 +1335,9 @@ private:
     sType->setForwardDecl(!RD->isCompleteDefinition() || isTemplate);
     sType->setAttributes(getLayoutAttributes(RD));
 
-    if(m_ignoreTypeFieldList.find(typeName) == m_ignoreTypeFieldList.end() && !isTemplate)
+    const clang::TypedefNameDecl* anonymousTypedef = RD->getTypedefNameForAnonDecl();
+    const std::string ignoreName = typeName.empty() && anonymousTypedef ? anonymousTypedef->getNameAsString() : typeName;
+    if(m_ignoreTypeFieldList.find(ignoreName) == m_ignoreTypeFieldList.end() && !isTemplate)
     {
       for (clang::FieldDecl *FD:
           RD->fields())
-- 
2.43.0


From 59f31772edc48aee5e83de0a8fbdbe7469612218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 54/66] fix: generate the pointers to functions which take an
 unnamed type declared by a typedef being defined

---
 src/easyMockGenerate/include/IncompleteType.h      | 8 ++++++++
 src/easyMockGenerate/src/IncompleteType.cpp        | 5 +++++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 +++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/IncompleteType.h b/src/easyMockGenerate/include/IncompleteType.h
index 51db28c..29e08d6 100644
--- a/src/easyMockGenerate/include/IncompleteType.h
+++ b/src/easyMockGenerate/include/IncompleteType.h
@@ -62,6 +62,13 @@ public:
    */
   const char* getComposableTypeKeyword() const;
 
+  /*!
+   * \brief Sets the name of the typedef which declares the type.
+   *
+   * It is the only way to name a type which doesn't have a name.
+   */
+  void setTypedefName(std::string p_typedefName) { m_typedefName = std::move(p_typedefName); }
+
   /*!
    * \copydoc ::TypeItf::getDeclarationPrefix
    */
@@ -82,6 +89,7 @@ public:
 protected:
 private:
   Type m_type;
+  std::string m_typedefName;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/src/IncompleteType.cpp b/src/easyMockGenerate/src/IncompleteType.cpp
index 735dd35..1b10396 100644
--- a/src/easyMockGenerate/src/IncompleteType.cpp
+++ b/src/easyMockGenerate/src/IncompleteType.cpp
@@ -5,6 +5,7 @@
 IncompleteType::IncompleteType(const TypeItf& p_type, Type p_typeType)
 : TypeItf{p_type.getName()},
 m_type{p_typeType},
+m_typedefName{},
 m_cachedHash{0}
 {
   setIncompleteType(true);
@@ -34,6 +35,10 @@ const char* IncompleteType::getComposableTypeKeyword() const
 
 std::string IncompleteType::getDeclarationPrefix(bool) const
 {
+  if(m_name.empty() && !m_typedefName.empty())
+  {
+    return m_typedefName;
+  }
   std::string toReturn { getComposableTypeKeyword() + std::string{ " " } + getScope() + m_name};
   while(toReturn.back() == ' ')
   {
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index f92b02d..85f2599 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1322,7 +1322,9 @@ private:
     }
     if(!typedDefName.empty())
     {
-      structKnownType.insert({knownTypedefName,std::make_shared<IncompleteType>(*sType, incType)});
+      auto incompleteType = std::make_shared<IncompleteType>(*sType, incType);
+      incompleteType->setTypedefName(typedDefName);
+      structKnownType.insert({knownTypedefName, std::move(incompleteType)});
     }
     if(!knownName.empty())
     {
-- 
2.43.0


From bf5aa8a81d516ab7d59313dd083ced685ccfedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:35 +0000
Subject: [PATCH 55/66] fix: generate unnamed types declared by a typedef
 before the types which contain them

---
 .../include/CodeGeneratorCTemplate.h                 |  1 +
 src/easyMockGenerate/include/IncompleteType.h        |  5 +++++
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 +++++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index a5e4edb..fbb9161 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -124,6 +124,7 @@ private:
   std::vector<const TypeItf*> m_pointedTypesToGenerate;
   unsigned m_nbComposableTypeBeingGenerated{0};
   std::unordered_map<std::string, const ComposableType*> m_completeComposableTypes;
+  std::unordered_map<const TypeItf*, std::string> m_typedefNames;
   void registerCompleteComposableTypes(const TypeItf* p_type);
   void generateDeclarationOfIncompleteFields(const ComposableType* p_composableType);
 };
diff --git a/src/easyMockGenerate/include/IncompleteType.h b/src/easyMockGenerate/include/IncompleteType.h
index 29e08d6..d3d517c 100644
--- a/src/easyMockGenerate/include/IncompleteType.h
+++ b/src/easyMockGenerate/include/IncompleteType.h
@@ -69,6 +69,11 @@ public:
    */
   void setTypedefName(std::string p_typedefName) { m_typedefName = std::move(p_typedefName); }
 
+  /*!
+   * \brief Gets the name of the typedef which declares the type.
+   */
+  const std::string& getTypedefName() const { return m_typedefName; }
+
   /*!
    * \copydoc ::TypeItf::getDeclarationPrefix
    */
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c420073..d4811fd 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1059,7 +1059,10 @@ bool isComposableTypeComplete(const ComposableType* composableType, const std::u
     bool isIncompleteType = std::visit([&p_generatedTypes](auto&& field) -> bool
       {
         const IncompleteType* incompleteType = field.getType()->unqualify()->asIncompleteType();
-        return incompleteType && p_generatedTypes.find(incompleteType->getComposableTypeKeyword() + incompleteType->getName()) == p_generatedTypes.end();
+        // A type without name is declared by a typedef
+        return incompleteType
+            && p_generatedTypes.find(incompleteType->getComposableTypeKeyword() + incompleteType->getName()) == p_generatedTypes.end()
+            && (!incompleteType->getName().empty() || p_generatedTypes.find(incompleteType->getTypedefName()) == p_generatedTypes.end());
       },
       field
     );
@@ -1403,6 +1406,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   m_generatedComposableTypes.clear();
   m_generatedFunctionNames.clear();
   m_completeComposableTypes.clear();
+  m_typedefNames.clear();
   m_pointedTypesToGenerate.clear();
   m_nbComposableTypeBeingGenerated = 0;
   m_rootDictionary->SetValue(MOCKED_HEADER_FILENAME, p_mockedHeader);
@@ -2227,6 +2231,11 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
       if (finalTypeName.empty())
       {
         finalTypeName = getAnonymousTypedefUniqueName(p_type);
+        const auto typedefName = m_typedefNames.find(p_type);
+        if(typedefName != m_typedefNames.end())
+        {
+          m_generatedComposableTypes.insert(typedefName->second);
+        }
       }
       guardName.append(finalTypeName);
       m_generatedComposableTypes.insert(guardName);
@@ -2254,6 +2263,7 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
   else if(typedefType)
   {
     generateSimpleTypeDef(typedefType);
+    m_typedefNames.insert({typedefType->getTypee(), typedefType->getName()});
     generateDeclarationOfUsedType(p_parentDictionary, typedefType->getTypee(), false);
   }
   else if(enumType)
-- 
2.43.0


From 0616c8accbf373391d745c9b17d111e140e90e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:35 +0000
Subject: [PATCH 56/66] fix: keep the tokens of the macros which are no tokens
 of the language

---
 .../src/LLVMParser/LLVMParser.cpp             | 25 +++----------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 85f2599..fd8d6cb 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1591,9 +1591,8 @@ private:
 class MacroBrowser : public clang::PPCallbacks
 {
 public:
-  MacroBrowser(ElementToMockContext& p_ctxt, clang::SourceManager& p_sm) : m_ctxt(p_ctxt), m_sm(p_sm)
+  MacroBrowser(ElementToMockContext& p_ctxt, clang::SourceManager& p_sm, const clang::LangOptions& p_LO) : m_ctxt(p_ctxt), m_sm(p_sm), m_LO(p_LO)
   {
-    (void)m_sm;
   }
 
   void MacroDefined (const clang::Token &p_macroIdentifierTok, const clang::MacroDirective *p_macroDirective) override
@@ -1665,27 +1664,11 @@ public:
 private:
   ElementToMockContext& m_ctxt;
   clang::SourceManager& m_sm;
+  const clang::LangOptions& m_LO;
 
   std::string getTokenString(const clang::Token &tok)
   {
-    const clang::IdentifierInfo* identifierInfo = tok.getIdentifierInfo();
-    const clang::tok::TokenKind& tokenKind = tok.getKind();
-    if(identifierInfo != nullptr)
-    {
-      return std::string(identifierInfo->getName().str());
-    }
-    const char* punctuationSpelling = getPunctuatorSpelling(tokenKind);
-    if(punctuationSpelling)
-    {
-      return std::string(punctuationSpelling);
-    }
-    if(isLiteral(tokenKind))
-    {
-      const char* lit = tok.getLiteralData();
-      auto length = tok.getLength();
-      return std::string{lit, length};
-    }
-    return std::string("");
+    return clang::Lexer::getSpelling(tok, m_sm, m_LO);
   }
 };
 
@@ -1701,7 +1684,7 @@ public:
   {
     clang::Preprocessor& PP = CI.getPreprocessor();
     clang::SourceManager& sm = CI.getSourceManager();
-    PP.addPPCallbacks(std::make_unique<MacroBrowser>(m_ctxt, sm));
+    PP.addPPCallbacks(std::make_unique<MacroBrowser>(m_ctxt, sm, CI.getLangOpts()));
     return std::make_unique<FunctionDeclASTConsumer>(CI, m_ctxt, m_parserConfig);
   }
 private:
-- 
2.43.0


From 2f8d13b652b823dd14d63319935227fe1765e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 57/66] fix: don't generate the predefined macros of the parser

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index d4811fd..ef8d9db 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1341,6 +1341,11 @@ void CodeGeneratorCTemplate::fillInMacroDefinition(const ElementToMockContext& p
   {
     std::string id = p.first;
     const MacroDefinition& macroDefinition = p.second;
+    if(macroDefinition.getOriginFile().rfind("<built-in>", 0) == 0)
+    {
+      // The compiler of the mock has its own
+      continue;
+    }
     const std::string& definition = macroDefinition.getDefinition();
     const MacroDefinition::ParameterList& parameters = macroDefinition.getParameters();
     ctemplate::TemplateDictionary *macroSection = m_generateMockedTypeSection->AddSectionDictionary(GENERATED_MACRO_SECTION);
-- 
2.43.0


From ca6c86f8a18d1d88032f79187781345b13dd1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 58/66] fix: the macros restored by #pragma pop_macro are
 generated as they are at the end of the header

---
 .../src/LLVMParser/LLVMParser.cpp             | 83 ++++++++++++-------
 1 file changed, 55 insertions(+), 28 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index fd8d6cb..661d274 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -37,6 +37,7 @@
 #include <regex>
 #include <memory>
 #include <optional>
+#include <map>
 #include <sstream>
 
 namespace
@@ -1591,21 +1592,67 @@ private:
 class MacroBrowser : public clang::PPCallbacks
 {
 public:
-  MacroBrowser(ElementToMockContext& p_ctxt, clang::SourceManager& p_sm, const clang::LangOptions& p_LO) : m_ctxt(p_ctxt), m_sm(p_sm), m_LO(p_LO)
+  MacroBrowser(ElementToMockContext& p_ctxt, clang::Preprocessor& p_pp) : m_ctxt(p_ctxt), m_pp(p_pp), m_sm(p_pp.getSourceManager()), m_LO(p_pp.getLangOpts())
   {
   }
 
   void MacroDefined (const clang::Token &p_macroIdentifierTok, const clang::MacroDirective *p_macroDirective) override
   {
-    std::string id;
-    MacroDefinition::ParameterList parameters{};
-    std::string definition("");
-    id = getTokenString(p_macroIdentifierTok);
+    std::string id = getTokenString(p_macroIdentifierTok);
     if(id.empty())
     {
       return;
     }
-    const clang::MacroInfo* macroInfo = p_macroDirective->getMacroInfo();
+    if(m_ctxt.hasMacroDefine(id))
+    {
+      fprintf(stderr, "Warning: Redefining %s\n", id.c_str());
+    }
+    addMacro(std::move(id), p_macroDirective->getMacroInfo(), p_macroIdentifierTok.getLocation());
+  }
+
+  /*
+   * The macros restored by "#pragma pop_macro" aren't reported when it happens.
+   */
+  void EndOfMainFile() override
+  {
+    std::map<std::string, const clang::MacroInfo*> macros;
+    for(const auto& macro : m_pp.macros(false))
+    {
+      macros.insert({macro.first->getName().str(), m_pp.getMacroInfo(macro.first)});
+    }
+    for(const auto& [id, macroInfo] : macros)
+    {
+      if(macroInfo == nullptr)
+      {
+        m_ctxt.deleteMacroDefine(id);
+      }
+      else if(!macroInfo->isBuiltinMacro())
+      {
+        addMacro(id, macroInfo, macroInfo->getDefinitionLoc());
+      }
+    }
+  }
+
+  virtual void MacroUndefined(const clang::Token &p_macroIdentifierTok, const clang::MacroDefinition &p_macroDefinition, const clang::MacroDirective *p_macroDirective) override
+  {
+    std::string id = getTokenString(p_macroIdentifierTok);
+    if(!m_ctxt.hasMacroDefine(id))
+    {
+      fprintf(stderr, "Warning: Undefining %s while it was not defined\n", id.c_str());
+      return;
+    }
+    m_ctxt.deleteMacroDefine(id);
+  }
+private:
+  ElementToMockContext& m_ctxt;
+  clang::Preprocessor& m_pp;
+  clang::SourceManager& m_sm;
+  const clang::LangOptions& m_LO;
+
+  void addMacro(std::string id, const clang::MacroInfo* macroInfo, const clang::SourceLocation& location)
+  {
+    MacroDefinition::ParameterList parameters{};
+    std::string definition("");
     if(macroInfo->isFunctionLike())
     {
       const auto &params = macroInfo->params();
@@ -1643,29 +1690,10 @@ public:
       }
       definition.append(strToAdd);
     }
-    if(m_ctxt.hasMacroDefine(id))
-    {
-      fprintf(stderr, "Warning: Redefining %s\n", id.c_str());
-    }
-    std::string sourceLocation = p_macroIdentifierTok.getLocation().printToString(m_sm);
+    std::string sourceLocation = location.printToString(m_sm);
     m_ctxt.addMacroDefine(std::move(id), std::move(parameters), std::move(definition), std::move(sourceLocation));
   }
 
-  virtual void MacroUndefined(const clang::Token &p_macroIdentifierTok, const clang::MacroDefinition &p_macroDefinition, const clang::MacroDirective *p_macroDirective) override
-  {
-    std::string id = getTokenString(p_macroIdentifierTok);
-    if(!m_ctxt.hasMacroDefine(id))
-    {
-      fprintf(stderr, "Warning: Undefining %s while it was not defined\n", id.c_str());
-      return;
-    }
-    m_ctxt.deleteMacroDefine(id);
-  }
-private:
-  ElementToMockContext& m_ctxt;
-  clang::SourceManager& m_sm;
-  const clang::LangOptions& m_LO;
-
   std::string getTokenString(const clang::Token &tok)
   {
     return clang::Lexer::getSpelling(tok, m_sm, m_LO);
@@ -1683,8 +1711,7 @@ public:
   virtual std::unique_ptr<clang::ASTConsumer> CreateASTConsumer(clang::CompilerInstance& CI, clang::StringRef file) override
   {
     clang::Preprocessor& PP = CI.getPreprocessor();
-    clang::SourceManager& sm = CI.getSourceManager();
-    PP.addPPCallbacks(std::make_unique<MacroBrowser>(m_ctxt, sm, CI.getLangOpts()));
+    PP.addPPCallbacks(std::make_unique<MacroBrowser>(m_ctxt, PP));
     return std::make_unique<FunctionDeclASTConsumer>(CI, m_ctxt, m_parserConfig);
   }
 private:
-- 
2.43.0


From eb725143131f6e10073bc19b976f72889efc4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 59/66] fix: call stacks name C functions whose name is the
 mangled name of a type

---
 src/easyMockFramework/src/easyMock.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockFramework/src/easyMock.cpp b/src/easyMockFramework/src/easyMock.cpp
index 3a751e4..17ea10a 100644
--- a/src/easyMockFramework/src/easyMock.cpp
+++ b/src/easyMockFramework/src/easyMock.cpp
@@ -272,7 +272,9 @@ private:
 
     if(function_name != nullptr)
     {
-      append_string(error, "%s(", boost::core::demangle(function_name).c_str());
+      // The name of a C function, such as f, can be the mangled name of a type
+      bool isMangled = strncmp(function_name, "_Z", 2) == 0;
+      append_string(error, "%s(", isMangled ? boost::core::demangle(function_name).c_str() : function_name);
     }
     else
     {
-- 
2.43.0


From 619455424fe1e9d72683961ca9a60e74345d60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:14 +0000
Subject: [PATCH 60/66] fix: equality and hash of the type model agree,
 whatever the type

Equal character types could have different hashes, incomplete types that
differ in their keyword were equal, the raw hash of types with a typedef
anywhere but at the top kept the typedef and asComposableField() returned
bitfields.
---
 src/easyMockGenerate/include/IncompleteType.h   |  2 ++
 src/easyMockGenerate/include/Pointer.h          |  5 +++++
 src/easyMockGenerate/include/QualifiedType.h    |  5 +++++
 src/easyMockGenerate/src/ComposableFieldItf.cpp |  2 +-
 src/easyMockGenerate/src/EasyMock_CType.cpp     |  1 -
 src/easyMockGenerate/src/IncompleteType.cpp     | 11 +++++++++++
 src/easyMockGenerate/src/Pointer.cpp            |  8 ++++++++
 src/easyMockGenerate/src/QualifiedType.cpp      |  8 ++++++++
 src/easyMockGenerate/src/TypedefType.cpp        |  7 ++-----
 9 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/include/IncompleteType.h b/src/easyMockGenerate/include/IncompleteType.h
index d3d517c..79cf882 100644
--- a/src/easyMockGenerate/include/IncompleteType.h
+++ b/src/easyMockGenerate/include/IncompleteType.h
@@ -92,6 +92,8 @@ public:
   virtual ~IncompleteType();
 
 protected:
+  bool isEqual(const TypeItf& p_other) const override;
+
 private:
   Type m_type;
   std::string m_typedefName;
diff --git a/src/easyMockGenerate/include/Pointer.h b/src/easyMockGenerate/include/Pointer.h
index f05de61..aa5911a 100644
--- a/src/easyMockGenerate/include/Pointer.h
+++ b/src/easyMockGenerate/include/Pointer.h
@@ -83,6 +83,11 @@ public:
    */
   std::size_t getHash() const noexcept override;
 
+  /*!
+   * \copydoc ::TypeItf::getRawHash()
+   */
+  std::size_t getRawHash() const noexcept override;
+
   /*!
    * \copydoc ::EasyMock::Hashable::cacheHash()
    */
diff --git a/src/easyMockGenerate/include/QualifiedType.h b/src/easyMockGenerate/include/QualifiedType.h
index 9bfdefe..752cb5e 100644
--- a/src/easyMockGenerate/include/QualifiedType.h
+++ b/src/easyMockGenerate/include/QualifiedType.h
@@ -65,6 +65,11 @@ public:
    */
   std::size_t getHash() const noexcept override;
 
+  /*!
+   * \copydoc ::TypeItf::getRawHash()
+   */
+  std::size_t getRawHash() const noexcept override;
+
   /*!
    * \copydoc ::EasyMock::Hashable::cacheHash()
    */
diff --git a/src/easyMockGenerate/src/ComposableFieldItf.cpp b/src/easyMockGenerate/src/ComposableFieldItf.cpp
index 0ac800d..08a8080 100644
--- a/src/easyMockGenerate/src/ComposableFieldItf.cpp
+++ b/src/easyMockGenerate/src/ComposableFieldItf.cpp
@@ -18,7 +18,7 @@ bool ComposableFieldItf::isComposableField() const
 
 const ComposableField* ComposableFieldItf::asComposableField() const
 {
-  if(!isComposableBitfield())
+  if(!isComposableField())
   {
     return nullptr;
   }
diff --git a/src/easyMockGenerate/src/EasyMock_CType.cpp b/src/easyMockGenerate/src/EasyMock_CType.cpp
index 1d1d807..c64f9f1 100644
--- a/src/easyMockGenerate/src/EasyMock_CType.cpp
+++ b/src/easyMockGenerate/src/EasyMock_CType.cpp
@@ -141,7 +141,6 @@ std::size_t CType::getHash() const noexcept
   }
   std::size_t seed { TypeItf::getHash() };
   boost::hash_combine(seed, static_cast<uint32_t>(m_cType));
-  boost::hash_combine(seed, m_initAsNakedChar);
 
   return seed;
 }
diff --git a/src/easyMockGenerate/src/IncompleteType.cpp b/src/easyMockGenerate/src/IncompleteType.cpp
index 1b10396..a7aca6a 100644
--- a/src/easyMockGenerate/src/IncompleteType.cpp
+++ b/src/easyMockGenerate/src/IncompleteType.cpp
@@ -47,6 +47,17 @@ std::string IncompleteType::getDeclarationPrefix(bool) const
   return toReturn;
 }
 
+bool IncompleteType::isEqual(const TypeItf& p_other) const
+{
+  if(!TypeItf::isEqual(p_other))
+  {
+    return false;
+  }
+  const IncompleteType* other = p_other.asIncompleteType();
+
+  return other && m_type == other->m_type;
+}
+
 std::size_t IncompleteType::getHash() const noexcept
 {
   if(m_cachedHash != 0)
diff --git a/src/easyMockGenerate/src/Pointer.cpp b/src/easyMockGenerate/src/Pointer.cpp
index 4e21e94..4aedfbf 100644
--- a/src/easyMockGenerate/src/Pointer.cpp
+++ b/src/easyMockGenerate/src/Pointer.cpp
@@ -50,6 +50,14 @@ std::size_t Pointer::getHash() const noexcept
   return seed;
 }
 
+std::size_t Pointer::getRawHash() const noexcept
+{
+  std::size_t seed { TypeItf::getHash() };
+  boost::hash_combine(seed, m_pointedType->getRawHash());
+
+  return seed;
+}
+
 void Pointer::cacheHash() noexcept
 {
   m_cachedHash = 0;
diff --git a/src/easyMockGenerate/src/QualifiedType.cpp b/src/easyMockGenerate/src/QualifiedType.cpp
index 86231f5..49a6e67 100644
--- a/src/easyMockGenerate/src/QualifiedType.cpp
+++ b/src/easyMockGenerate/src/QualifiedType.cpp
@@ -61,6 +61,14 @@ std::size_t QualifiedType::getHash() const noexcept
   return seed;
 }
 
+std::size_t QualifiedType::getRawHash() const noexcept
+{
+  std::size_t seed { TypeItf::getHash() };
+  boost::hash_combine(seed, m_type->getRawHash());
+
+  return seed;
+}
+
 void QualifiedType::cacheHash() noexcept
 {
   m_cachedHash = 0;
diff --git a/src/easyMockGenerate/src/TypedefType.cpp b/src/easyMockGenerate/src/TypedefType.cpp
index 54ecbce..448e427 100644
--- a/src/easyMockGenerate/src/TypedefType.cpp
+++ b/src/easyMockGenerate/src/TypedefType.cpp
@@ -29,7 +29,7 @@ std::size_t TypedefType::getHash() const noexcept
     return m_cachedHash;
   }
   std::size_t seed { TypeItf::getHash() };
-  boost::hash_combine(seed, getRawHash());
+  boost::hash_combine(seed, *m_typeeType);
 
   return seed;
 }
@@ -40,10 +40,7 @@ void TypedefType::cacheHash() noexcept
   m_cachedHash = 0;
   TypeItf::cacheHash();
   m_typeeType->cacheHash();
-  // Since getHash calls getRawHash:
-  // First cache the raw hash
   m_cachedRawHash = TypedefType::getRawHash();
-  // Then cache the hash
   m_cachedHash = TypedefType::getHash();
 }
 
@@ -53,7 +50,7 @@ std::size_t TypedefType::getRawHash() const noexcept
   {
     return m_cachedRawHash;
   }
-  return m_typeeType->getHash();
+  return m_typeeType->getRawHash();
 }
 
 bool TypedefType::isEqual(const TypeItf &p_other) const
-- 
2.43.0


From 529cd575454b7d471747c7c01c43d751684ec651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:58 +0000
Subject: [PATCH 61/66] fix: C++ bit-fields of more than 255 bits don't abort
 the generation

---
 src/easyMockGenerate/include/ComposableBitfield.h  | 10 +++++-----
 src/easyMockGenerate/src/ComposableBitfield.cpp    |  6 +++---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp |  3 +--
 src/easyMockGenerate/src/PrintObjects.cpp          |  2 +-
 4 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/include/ComposableBitfield.h b/src/easyMockGenerate/include/ComposableBitfield.h
index b63e903..052a3eb 100644
--- a/src/easyMockGenerate/include/ComposableBitfield.h
+++ b/src/easyMockGenerate/include/ComposableBitfield.h
@@ -27,12 +27,12 @@ public:
    * \param p_name The name of the bitfield. If it is empty, the bitfield is anonymous.
    * \param p_size The number of bits that the field has.
    */
-  ComposableBitfield(std::shared_ptr<TypeItf> p_type, std::string p_name, uint8_t p_size);
+  ComposableBitfield(std::shared_ptr<TypeItf> p_type, std::string p_name, unsigned p_size);
 
   /*!
-   * \copydoc ::ComposableBitfield::ComposableBitfield(std::shared_ptr<TypeItf>, std::string, uint8_t)
+   * \copydoc ::ComposableBitfield::ComposableBitfield(std::shared_ptr<TypeItf>, std::string, unsigned)
    */
-  ComposableBitfield(easyMock_cTypes_t p_type, std::string p_name, uint8_t p_size);
+  ComposableBitfield(easyMock_cTypes_t p_type, std::string p_name, unsigned p_size);
 
   ComposableBitfield(const ComposableBitfield &other) = delete;
   ComposableBitfield &operator=(const ComposableBitfield& other) = delete;
@@ -55,7 +55,7 @@ public:
   /*!
    * \brief Get the number of bit that the bitfield has.
    */
-  uint8_t getSize() const;
+  unsigned getSize() const;
 
   /*!
    * \copydoc ::EasyMock::Hashable::getHash()
@@ -74,7 +74,7 @@ private:
    */
   bool isEqual(const Declarator& p_other) const override;
 
-  uint8_t m_size;
+  unsigned m_size;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/src/ComposableBitfield.cpp b/src/easyMockGenerate/src/ComposableBitfield.cpp
index 15a3b8b..14630b4 100644
--- a/src/easyMockGenerate/src/ComposableBitfield.cpp
+++ b/src/easyMockGenerate/src/ComposableBitfield.cpp
@@ -6,12 +6,12 @@
 #include <boost/functional/hash.hpp>
 #include <cassert>
 
-ComposableBitfield::ComposableBitfield(easyMock_cTypes_t p_type, std::string p_name, uint8_t p_size) :
+ComposableBitfield::ComposableBitfield(easyMock_cTypes_t p_type, std::string p_name, unsigned p_size) :
 ComposableBitfield{std::make_shared<CType>(p_type), std::move(p_name), p_size}
 {
 }
 
-ComposableBitfield::ComposableBitfield(std::shared_ptr<TypeItf> p_type, std::string p_name, uint8_t p_size) :
+ComposableBitfield::ComposableBitfield(std::shared_ptr<TypeItf> p_type, std::string p_name, unsigned p_size) :
 ComposableFieldItf{std::move(p_type), std::move(p_name)},
 m_size{p_size},
 m_cachedHash{0}
@@ -67,7 +67,7 @@ bool ComposableBitfield::isComposableBitfield() const
   return true;
 }
 
-uint8_t ComposableBitfield::getSize() const
+unsigned ComposableBitfield::getSize() const
 {
   return m_size;
 }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 661d274..161c22e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1353,8 +1353,7 @@ private:
         if (FD->isBitField())
         {
           unsigned bitWidth = FD->getBitWidthValue(*m_context);
-          assert(bitWidth < 256);
-          ComposableBitfield bf{std::move(fieldType), fName, static_cast<uint8_t>(bitWidth)};
+          ComposableBitfield bf{std::move(fieldType), fName, bitWidth};
           bf.setFullDeclaration(getFullFieldDeclaration(FD));
           sType->addField(std::move(bf));
         } else
diff --git a/src/easyMockGenerate/src/PrintObjects.cpp b/src/easyMockGenerate/src/PrintObjects.cpp
index b42133e..3fe4969 100644
--- a/src/easyMockGenerate/src/PrintObjects.cpp
+++ b/src/easyMockGenerate/src/PrintObjects.cpp
@@ -313,7 +313,7 @@ namespace std {
         os << "ComposableBitfield(";
         os << "declString: '" << composableBitfield.getDeclareString() << "', ";
         os << "name: '" << composableBitfield.getName() << "', ";
-        os << "size: '" << static_cast<unsigned>(composableBitfield.getSize()) << "', ";
+        os << "size: '" << composableBitfield.getSize() << "', ";
         os << "type: " << std::endl;
         gs_indentation.push_back('\t');
         os << gs_indentation << *composableBitfield.getType();
-- 
2.43.0


From 1c47b250a13275cf55fb001072112187ddc512af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:58 +0000
Subject: [PATCH 62/66] fix: mock the C++ functions that use wchar_t, the
 Unicode character types and nullptr_t

---
 .../src/LLVMParser/LLVMParser.cpp             | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 161c22e..fb149b5 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -948,7 +948,12 @@ private:
   {
     std::shared_ptr<CType> cType = nullptr;
 
-    if(type.isVoidType())
+    const std::string cppOnlyName = getCppOnlyTypeName(type);
+    if(!cppOnlyName.empty())
+    {
+      cType = std::make_shared<CType>(CTYPE_INT);
+    }
+    else if(type.isVoidType())
     {
       cType = std::make_shared<CType>(CTYPE_VOID);
     }
@@ -1019,6 +1024,10 @@ private:
     }
     const std::string typedefName = getTypedefName(type);
     std::shared_ptr<TypeItf> returnedType = cType;
+    if(!cppOnlyName.empty())
+    {
+      returnedType = std::make_shared<TypedefType>(cppOnlyName, std::move(returnedType));
+    }
     if(!typedefName.empty())
     {
       returnedType = makeTypedefType(type, std::move(returnedType));
@@ -1027,6 +1036,29 @@ private:
     return returnedType;
   }
 
+  /*
+   * The C++ types without a counterpart in C are known by their name. Returns an empty string for the other types.
+   */
+  static std::string getCppOnlyTypeName(const clang::Type &type)
+  {
+    switch(type.getAs<clang::BuiltinType>()->getKind())
+    {
+      case clang::BuiltinType::WChar_S:
+      case clang::BuiltinType::WChar_U:
+        return "wchar_t";
+      case clang::BuiltinType::Char8:
+        return "char8_t";
+      case clang::BuiltinType::Char16:
+        return "char16_t";
+      case clang::BuiltinType::Char32:
+        return "char32_t";
+      case clang::BuiltinType::NullPtr:
+        return "decltype(nullptr)";
+      default:
+        return "";
+    }
+  }
+
   std::shared_ptr<TypedefType> makeTypedefType(const clang::Type &p_type, std::shared_ptr<TypeItf> p_typee)
   {
     const clang::TypedefNameDecl *typedefDecl = p_type.getAs<clang::TypedefType>()->getDecl();
-- 
2.43.0


From 3997fa5ca05050fde7219231d43fa1d811208d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 63/66] fix: parameters of type va_list are pointers, in C and
 in C++

---
 src/easyMockFramework/include/easyMock.h                 | 9 ++++++++-
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/easyMockFramework/include/easyMock.h b/src/easyMockFramework/include/easyMock.h
index 119b844..9dda8bf 100644
--- a/src/easyMockFramework/include/easyMock.h
+++ b/src/easyMockFramework/include/easyMock.h
@@ -205,10 +205,17 @@ extern "C"
 #include <functional>
 #include <sstream>
 #include <string>
+#include <type_traits>
 namespace EasyMock
 {
+/*
+ * The parameters whose type is a typedef to an array, like va_list, are pointers.
+ */
+template<class T>
+using EasyMock_Matcher_Type = typename std::conditional<std::is_array<T>::value, typename std::decay<T>::type, T>::type;
+
 template<class T>
-using EasyMock_Matcher_Cpp = bool(*)(const T& currentCall, const T& expectedCall, const std::string paramName, std::ostringstream& errorMessage);
+using EasyMock_Matcher_Cpp = bool(*)(const EasyMock_Matcher_Type<T>& currentCall, const EasyMock_Matcher_Type<T>& expectedCall, const std::string paramName, std::ostringstream& errorMessage);
 
 template<typename T>
 bool cmp(const T& currentCall, const T& expectedCall, std::string paramName, std::ostringstream& errorMessage)
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ef8d9db..f4ae797 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -761,7 +761,7 @@ const char templateText[] =
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
-          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ")); // normal member section")
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(__typeof__(" PARAMETER_NAME("") "))); // normal member section")
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") "; // normal member section")
         )
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = std::addressof(" PARAMETER_NAME("") "); // Reference member section")
@@ -1769,7 +1769,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     }
     if(m_isCpp)
     {
-      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, "std::remove_cv<" + argType + ">::type");
+      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, "std::decay<" + argType + ">::type");
     }
     else if(!nonQualifiedParamPtrType)
     {
@@ -1832,7 +1832,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         }
         ctemplate::TemplateDictionary* newPtrParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_PTR_SECTION);
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
-        newPtrParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, m_isCpp ? "std::remove_cv<" + argType + ">::type" : argType);
+        newPtrParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, m_isCpp ? "std::decay<" + argType + ">::type" : argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
         const TypeItf* definedPointedType = getMostDefinedType(pointedType);
-- 
2.43.0


From b115ed5f987591f67fd9d906c3796d17af519b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:33 +0000
Subject: [PATCH 64/66] fix: C++ functions can return references to objects
 that can't be created

---
 .../include/MockedFunction.h                  | 44 +++++++++++++++++++
 .../CodeGeneratorCTemplate.cpp                |  5 ++-
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/easyMockFramework/include/MockedFunction.h b/src/easyMockFramework/include/MockedFunction.h
index 2252051..f1f1a09 100644
--- a/src/easyMockFramework/include/MockedFunction.h
+++ b/src/easyMockFramework/include/MockedFunction.h
@@ -17,6 +17,7 @@
 #ifdef __cplusplus
 
 #include <easyMock_glueStdlib.h>
+#include <memory>
 #include <type_traits>
 #include <vector>
 #include <string>
@@ -53,6 +54,49 @@ struct MockedCppFunction
   std::vector<T> mockedData;
 };
 
+/*!
+ * \brief Size of the objects of a type. The size of incomplete types isn't known.
+ */
+template <typename T, typename = void>
+struct MockedFunctionObjectSize
+{
+  static const easyMock_size_t value = 1024;
+};
+
+template <typename T>
+struct MockedFunctionObjectSize<T, decltype(static_cast<void>(sizeof(T)))>
+{
+  static const easyMock_size_t value = sizeof(T);
+};
+
+/*!
+ * \brief Object to which a mocked C++ function returning a reference refers when it is called unexpectedly.
+ *
+ * When an object of this type can't be created (e.g. abstract or incomplete
+ * class, no accessible default constructor), it is zeroed memory.
+ */
+template <typename T, typename = void>
+struct MockedFunctionDefaultObject
+{
+  alignas(16) unsigned char memory[MockedFunctionObjectSize<T>::value];
+
+  T* get()
+  {
+    return reinterpret_cast<T*>(memory);
+  }
+};
+
+template <typename T>
+struct MockedFunctionDefaultObject<T, decltype(static_cast<void>(T{}))>
+{
+  T object{};
+
+  T* get()
+  {
+    return std::addressof(object);
+  }
+};
+
 /*!
  * \brief Whether the objects of a type can only be copied by assigning them.
  */
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f4ae797..1c05180 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -629,9 +629,12 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, "static MockedCppFunction<" FUNCTION_MOCK_DATA_TYPE "> " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_RETURN_VALUE(
+          IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION, "static MockedFunctionDefaultObject<" FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE "> dummyRes_" FUNCTION_UNIQUE_NAME ";")
+          IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
           "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_UNIQUE_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "{}")
           ";"
+          )
           CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
@@ -644,7 +647,7 @@ const char templateText[] =
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
               "    " DECLARE_REFERENCE_MEMBER("default_res", FUNCTION_RETURN_VALUE_TYPE) ";" CARRIAGE_RETURN
-              "    default_res = std::addressof(dummyRes_" FUNCTION_UNIQUE_NAME ");" CARRIAGE_RETURN
+              "    default_res = dummyRes_" FUNCTION_UNIQUE_NAME ".get();" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
               "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(CPP_ONLY_SECTION, " = dummyRes_" FUNCTION_UNIQUE_NAME) ";" CARRIAGE_RETURN
-- 
2.43.0


From fbf43d82edd356f196c1cacef3e525480e8966bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 65/66] fix: C++ functions can return pointers to classes whose
 member functions are mocked

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index fb149b5..1f8661f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -455,7 +455,7 @@ private:
 
     // Neither is it for the members (virtual, static..), the friends and the trailing return types
     if(m_LO->CPlusPlus &&
-        (func->isCXXClassMember() || func->getFriendObjectKind() != clang::Decl::FOK_None || rvQualType->isFunctionPointerType() || rvQualType->isReferenceType() || rvQualType->isRecordType() || needsQualifiedDeclaration(rvQualType) || func->getType()->castAs<clang::FunctionProtoType>()->hasTrailingReturn()))
+        (func->isCXXClassMember() || func->getFriendObjectKind() != clang::Decl::FOK_None || rvQualType->isFunctionPointerType() || rvQualType->isReferenceType() || isRecordOrPointerToRecord(rvQualType) || needsQualifiedDeclaration(rvQualType) || func->getType()->castAs<clang::FunctionProtoType>()->hasTrailingReturn()))
     {
       rv.setDeclareString(getQualifiedDeclaration(rvQualType));
       return rv;
@@ -513,6 +513,18 @@ private:
     return scope.empty() ? scope : "::" + scope;
   }
 
+  /*
+   * The name of a class is also the one of the namespace of its mocks.
+   */
+  bool isRecordOrPointerToRecord(clang::QualType type)
+  {
+    while(type->isPointerType())
+    {
+      type = type->getPointeeType();
+    }
+    return type->isRecordType();
+  }
+
   /*
    * Whether a type can't be declared with the name of its model alone
    */
-- 
2.43.0


From b7646f03e4d58d08aeef3de51e0f8b3769c4b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 66/66] fix: C++ parameters whose type is hidden in the scope
 of the function keep their type

---
 .../src/LLVMParser/LLVMParser.cpp             | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1f8661f..f776f5c 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -555,6 +555,45 @@ private:
     return tagDecl && (llvm::isa<clang::ClassTemplateSpecializationDecl>(tagDecl) || !getScope(tagDecl->getDeclContext()).empty());
   }
 
+  /*
+   * Whether the scope of a function declares something else with the name of a type of the global scope
+   */
+  bool isHidden(clang::QualType type, const clang::DeclContext* declContext)
+  {
+    const clang::NamedDecl* namedDecl = nullptr;
+    while(!namedDecl)
+    {
+      if(const auto* typedefType = type->getAs<clang::TypedefType>())
+      {
+        namedDecl = typedefType->getDecl();
+      }
+      else if(type->isPointerType() || type->isReferenceType())
+      {
+        type = type->getPointeeType();
+      }
+      else if(!(namedDecl = type->getAsTagDecl()))
+      {
+        return false;
+      }
+    }
+    for(; m_LO->CPlusPlus && !declContext->isTranslationUnit(); declContext = declContext->getParent())
+    {
+      if(declContext->isTransparentContext())
+      {
+        continue;
+      }
+      for(const clang::NamedDecl* declared : declContext->lookup(namedDecl->getDeclName()))
+      {
+        const auto* record = llvm::dyn_cast<clang::CXXRecordDecl>(declared);
+        if(!record || !record->isInjectedClassName())
+        {
+          return true;
+        }
+      }
+    }
+    return false;
+  }
+
   /*
    * The declaration of a type which is valid in any scope and in front of a name.
    */
@@ -655,7 +694,7 @@ private:
        * See VoidFunUnnamedPtrParam test for reproduction scenario.
        * See VoidFunEnumFactory (unnamed param) test for reproduction scenario.
        */
-      if(needsQualifiedDeclaration(paramQualType))
+      if(needsQualifiedDeclaration(paramQualType) || isHidden(paramQualType, func->getDeclContext()))
       {
         p.setDeclareString(getQualifiedDeclaration(paramQualType));
       }
-- 
2.43.0

