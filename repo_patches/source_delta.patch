From 05e174e34f96e1b146033deb95fd40eadd159d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 1/4] fix: cstring_append copied into a NULL pointer when
 memory could not be allocated

---
 src/easyMockFramework/src/cstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockFramework/src/cstring.c b/src/easyMockFramework/src/cstring.c
index c37ada0..a352027 100644
--- a/src/easyMockFramework/src/cstring.c
+++ b/src/easyMockFramework/src/cstring.c
@@ -82,6 +82,11 @@ void cstring_append(cstring *s, const char *strToAppend)
     else
     {
       s->heap = malloc(newSize);
+      if(s->heap == NULL)
+      {
+        fprintf(stderr, "Couldn't allocate the memory: %s",strerror(errno));
+        exit(1);
+      }
       strncpy(s->heap, s->stack, currentSize + 1);
       ptrToUpdate = s->heap;
     }
-- 
2.43.0


From d888cbc13cf3ac828cdc6d1985bbeb475532321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 2/4] fix: signed char was translated to char, the generated
 mock did not compile

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2d6c2b0..eaf379b 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -656,6 +656,10 @@ private:
     {
       cType = std::make_shared<CType>(CTYPE_VOID);
     }
+    else if(isSignedCharType(type))
+    {
+      cType = std::make_shared<CType>(CTYPE_SCHAR);
+    }
     else if(type.isCharType())
     {
 #if IS_CHAR_DEFAULT_UNSIGNED
@@ -971,6 +975,14 @@ private:
     return rv;
   }
 
+  bool isSignedCharType(const clang::Type &type)
+  {
+    const clang::BuiltinType *bt = type.getAs<clang::BuiltinType>();
+
+    clang::BuiltinType::Kind kind = bt->getKind();
+    return kind == clang::BuiltinType::SChar;
+  }
+
   bool isShortType(const clang::Type &type)
   {
     const clang::BuiltinType *bt = type.getAs<clang::BuiltinType>();
-- 
2.43.0


From f37f7d38feebe9e7869b168f3120e2a93a77feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 3/4] fix: the output of a pointer to a typedef of an
 incomplete type was sized with sizeof of that type

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3eab7b3..dea9c9d 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1657,8 +1657,9 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
-        const ComposableType* composableTypeField = pointedType->asComposableType();
-        if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
+        const TypeItf* definedPointedType = getMostDefinedType(pointedType);
+        const ComposableType* composableTypeField = definedPointedType->asComposableType();
+        if(definedPointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_VOID_PTR_OUT_SECTION);
         }
-- 
2.43.0


From 9718015b8f51cdb733943b595a7c9459ff2e53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 4/4] fix: _Bool was translated to unsigned int, the generated
 mock did not compile

---
 src/easyMockGenerate/include/EasyMockGenerateTypes.h | 4 ++++
 src/easyMockGenerate/src/EasyMockGenerateTypes.cpp   | 2 ++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   | 6 +++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/EasyMockGenerateTypes.h b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
index 642ed23..95815c0 100644
--- a/src/easyMockGenerate/include/EasyMockGenerateTypes.h
+++ b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
@@ -73,6 +73,10 @@ typedef enum
    * \brief <tt> unsigned __int128 </tt> type
    */
   CTYPE_UINT128,
+  /*!
+   * \brief @c _Bool type (@c bool in C++)
+   */
+  CTYPE_BOOL,
   /*!
    * \brief @c void type
    */
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index e9171d5..6c581e9 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -20,6 +20,7 @@ const char *easyMock_arrayCTypeStr[] =
   "long double",
   "__int128",
   "unsigned __int128",
+  "_Bool",
   "void",
   "invalid"
 };
@@ -44,6 +45,7 @@ const char *easyMock_printfFormat[] =
   "Lf",
   "lf%lf",
   "Lf%Lf",
+  "d",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
 };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index eaf379b..9e76a4a 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -703,7 +703,11 @@ private:
     }
     else if(isBoolType(type))
     {
-      cType = std::make_shared<CType>(CTYPE_INT);
+      cType = std::make_shared<CType>(CTYPE_BOOL);
+      if(m_context->getLangOpts().CPlusPlus)
+      {
+        cType->setName("bool");
+      }
     }
     else if(isInt128Type(type))
     {
-- 
2.43.0

