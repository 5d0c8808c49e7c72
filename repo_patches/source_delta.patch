From dc6238ca0c9e3149c1e932b6650d6750ec2ee76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 01/47] fix: 128-bit comparators show the value compared

The low half was printed without its leading zeros and a zero high half
without 0x, so e.g. 0x10000000000000005 was reported as 0x15.
---
 src/easyMockFramework/src/easyMock_matcher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index ec659c2..622dd78 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -68,7 +68,7 @@ extern "C" int cmp_int128(const void *currentCall_ptr, const void *expectedCall_
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
@@ -85,7 +85,7 @@ extern "C" int cmp_uint128(const void *currentCall_ptr, const void *expectedCall
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
-- 
2.43.0


From dfa2835da49ac2e40b1ce72b49e8b60acb374b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 02/47] fix: check the first heap allocation of a cstring

cstring_append() dereferenced the null pointer returned by a failing malloc
when a string outgrew its stack buffer, whereas the realloc path reports the
failure and exits.
---
 src/easyMockFramework/src/cstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockFramework/src/cstring.c b/src/easyMockFramework/src/cstring.c
index c37ada0..a352027 100644
--- a/src/easyMockFramework/src/cstring.c
+++ b/src/easyMockFramework/src/cstring.c
@@ -82,6 +82,11 @@ void cstring_append(cstring *s, const char *strToAppend)
     else
     {
       s->heap = malloc(newSize);
+      if(s->heap == NULL)
+      {
+        fprintf(stderr, "Couldn't allocate the memory: %s",strerror(errno));
+        exit(1);
+      }
       strncpy(s->heap, s->stack, currentSize + 1);
       ptrToUpdate = s->heap;
     }
-- 
2.43.0


From 3ba27f08bc1f21e57db6afb9316511c2d266f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 03/47] fix: call stack of a file recorded without directory

strrchr() returns null for a source file name without any slash, and the call
stack printed the string at address 1.
---
 src/easyMockFramework/src/easyMock.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockFramework/src/easyMock.cpp b/src/easyMockFramework/src/easyMock.cpp
index 3a751e4..4e108d6 100644
--- a/src/easyMockFramework/src/easyMock.cpp
+++ b/src/easyMockFramework/src/easyMock.cpp
@@ -286,7 +286,8 @@ private:
       int nline;
       Dwarf_Addr addr;
       const char* filename = dwfl_lineinfo(line, &addr, &nline, NULL, NULL, NULL);
-      append_string(error, "%s:%d", strrchr(filename, '/') + 1, nline);
+      const char* lastSlash = strrchr(filename, '/');
+      append_string(error, "%s:%d", lastSlash ? lastSlash + 1 : filename, nline);
     }
     else
     {
-- 
2.43.0


From 4169477215bc4c66c523121935270c99a9c3a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 04/47] fix: signed char is a type of its own, not char

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2d6c2b0..aab0c96 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -656,6 +656,10 @@ private:
     {
       cType = std::make_shared<CType>(CTYPE_VOID);
     }
+    else if(type.isSpecificBuiltinType(clang::BuiltinType::SChar))
+    {
+      cType = std::make_shared<CType>(CTYPE_SCHAR);
+    }
     else if(type.isCharType())
     {
 #if IS_CHAR_DEFAULT_UNSIGNED
-- 
2.43.0


From 696f163c647fe07dad6355c70128e30f102ff0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 05/47] fix: bool is a type of its own, not unsigned int

---
 src/easyMockGenerate/include/EasyMockGenerateTypes.h | 4 ++++
 src/easyMockGenerate/src/EasyMockGenerateTypes.cpp   | 2 ++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   | 8 ++++++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/include/EasyMockGenerateTypes.h b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
index 642ed23..a6f98a9 100644
--- a/src/easyMockGenerate/include/EasyMockGenerateTypes.h
+++ b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
@@ -73,6 +73,10 @@ typedef enum
    * \brief <tt> unsigned __int128 </tt> type
    */
   CTYPE_UINT128,
+  /*!
+   * \brief <tt> _Bool </tt> type
+   */
+  CTYPE_BOOL,
   /*!
    * \brief @c void type
    */
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index e9171d5..6c581e9 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -20,6 +20,7 @@ const char *easyMock_arrayCTypeStr[] =
   "long double",
   "__int128",
   "unsigned __int128",
+  "_Bool",
   "void",
   "invalid"
 };
@@ -44,6 +45,7 @@ const char *easyMock_printfFormat[] =
   "Lf",
   "lf%lf",
   "Lf%Lf",
+  "d",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
 };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index aab0c96..2b2e32f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -512,7 +512,7 @@ private:
        * See VoidFunUnnamedPtrParam test for reproduction scenario.
        * See VoidFunEnumFactory (unnamed param) test for reproduction scenario.
        */
-      if(beginLoc.isMacroID() || parameterRawType->isImplicit())
+      if((beginLoc.isMacroID() && parameterRawType->getCType() != CTYPE_BOOL) || parameterRawType->isImplicit())
       {
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
@@ -703,7 +703,11 @@ private:
     }
     else if(isBoolType(type))
     {
-      cType = std::make_shared<CType>(CTYPE_INT);
+      cType = std::make_shared<CType>(CTYPE_BOOL);
+      if(m_context->getLangOpts().CPlusPlus)
+      {
+        cType->setName("bool");
+      }
     }
     else if(isInt128Type(type))
     {
-- 
2.43.0


From 74e98985f62017613978d0456e56e901ff002dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 06/47] fix: a field whose type is an array typedef keeps its
 size in generated types

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2b2e32f..3991144 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -926,7 +926,15 @@ private:
             arraySize = -1;
           }
           ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize}};
-          setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
+          /*
+           * The name of an array typedef stands for the elements together with their number. Since the number is
+           * part of the field, the field must be declared with the type of its elements.
+           */
+          const bool isArrayTypedef = typePtr->isArrayType() && typePtr->getAs<clang::TypedefType>() != nullptr;
+          if (!isArrayTypedef)
+          {
+            setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
+          }
           sType->addField(std::move(sf));
         }
       }
-- 
2.43.0


From 693e346db803a5a2a15f7c089c7715330b9db593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 07/47] fix: keep sign, width and aliases of enumeration
 constants in generated types

---
 src/easyMockGenerate/include/Enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 714131e..5608992 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -25,7 +25,7 @@ public:
   /*!
    * \brief Type used to store enum values
    */
-  using listOfValuesType = std::map<unsigned int, std::string>;
+  using listOfValuesType = std::multimap<int64_t, std::string>;
 
   /*!
    * \brief Creates an enum
-- 
2.43.0


From 35042d6f2ed874249f9a349e9e52815ede5f07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 08/47] fix: headers with bit fields of enumeration type no
 longer abort the generator

---
 src/easyMockGenerate/src/ComposableBitfield.cpp    | 12 ++----------
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp |  6 +++---
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/easyMockGenerate/src/ComposableBitfield.cpp b/src/easyMockGenerate/src/ComposableBitfield.cpp
index f0702c7..b9a965d 100644
--- a/src/easyMockGenerate/src/ComposableBitfield.cpp
+++ b/src/easyMockGenerate/src/ComposableBitfield.cpp
@@ -1,7 +1,6 @@
 #include <ComposableBitfield.h>
 
 #include <EasyMock_CType.h>
-#include <TypedefType.h>
 
 #include <boost/functional/hash.hpp>
 #include <cassert>
@@ -18,15 +17,8 @@ m_cachedHash{0}
 {
   TypeItf* typeItf = getType();
   assert(typeItf);
-  TypedefType* typedefType = typeItf->asTypedefType();
-  if(typedefType)
-  {
-    assert(typedefType->getMostDefinedTypee()->isCType());
-  }
-  else
-  {
-    assert(typeItf->isCType());
-  }
+  const TypeItf* rawType = typeItf->getRawType();
+  assert(rawType->isCType() || rawType->isEnum());
 }
 
 bool ComposableBitfield::operator==(const ComposableBitfield &other) const
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 3991144..1e82f64 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -908,10 +908,10 @@ private:
 
         if (FD->isBitField())
         {
-          TypedefType *typedefFieldType = fieldType->asTypedefType();
-          if (!fieldType->isCType() && (typedefFieldType && !typedefFieldType->getMostDefinedTypee()->isCType()))
+          const TypeItf *rawFieldType = fieldType->getRawType();
+          if (!rawFieldType->isCType() && !rawFieldType->isEnum())
           {
-            fprintf(stderr, "Type must be CType for bitfields");
+            fprintf(stderr, "Type must be CType or Enum for bitfields");
             typePtr->dump();
             assert(false);
           }
-- 
2.43.0


From b4610b52b18cca37e7144ea5da2f6cd389b2519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 09/47] fix: flexible array members stay arrays in generated
 types

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3eab7b3..1969363 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2185,7 +2185,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         if(!curFieldName.empty())
         {
           const ComposableField* curCompField = dynamic_cast<const ComposableField*>(&curField);
-          if(curCompField && curCompField->isBoundSpecifiedArray())
+          if(curCompField && curCompField->isArray())
           {
             curFieldName.push_back('[');
             curFieldName.append(std::to_string(curCompField->getArraySize()));
@@ -2203,7 +2203,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         const std::string& curFieldName = curField.getName();
         std::string fieldName = curFieldName;
         generateSimpleTypeDef(getMostPointedType(curField.getType()));
-        if(curCompField && curCompField->isBoundSpecifiedArray())
+        if(curCompField && curCompField->isArray())
         {
           fieldName.push_back('[');
           fieldName.append(std::to_string(curCompField->getArraySize()));
-- 
2.43.0


From 52fbc84a8153c40458430921b5a4772dd3345820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 10/47] fix: generated typedefs of pointers and callbacks
 follow the types they are declared with

---
 .../CodeGeneratorCTemplate.cpp                | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 1969363..e4a7f14 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2509,23 +2509,43 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
    * typedef (p_naked == true).
    */
   std::string localType { typeeType->getFullDeclarationName(true) };
-  const TypeItf *rawType = getRawType(typeeType);
-  const FunctionType *functionType = rawType->asFunctionType();
+  /*
+   * The type the typedef is declared with, i.e. without its pointers and qualifiers but with its own typedef if any.
+   */
+  const TypeItf *declaredType = typeeType->unqualify();
+  while(const Pointer* ptrType = declaredType->asPointer())
+  {
+    declaredType = ptrType->getPointedType()->unqualify();
+  }
+  const FunctionType *functionType = declaredType->asFunctionType();
   bool isRawTypeFunctionType = functionType != nullptr;
+
+  /*
+   * The types this typedef is declared with must be known before it.
+   */
+  if(isRawTypeFunctionType)
+  {
+    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
+  }
+  else
+  {
+    generateSimpleTypeDef(declaredType);
+  }
+
   ctemplate::TemplateDictionary *typeDefDict = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION);
   typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME, typedefName);
 
   if(!isRawTypeFunctionType)
   {
-    if (rawType->getName().empty())
+    if (declaredType->getName().empty())
     {
-      localType += std::string{" "} + getAnonymousName(rawType);
+      const std::string keyword { declaredType->getFullDeclarationName(true) };
+      localType.insert(localType.find(keyword) + keyword.size(), std::string{" "} + getAnonymousName(declaredType));
     }
     typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR, typedefName);
   }
   else
   {
-    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
     localType += typedefName;
     localType += functionType->getDeclarationPostfix();
     /*
-- 
2.43.0


From b0f92a2fb40c42ce33b52e17ac6f83b2b5fd320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 11/47] fix: a mock which cannot be written completely is an
 error

The main generator dropped the verdict of the code generator, and the verdict
of closing the file was not looked at: with a full disk or an output file which
can't be opened, EasyMockGenerate ended with status 0.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp       | 5 +++--
 src/easyMockGenerate/src/MainCodeGenerator.cpp              | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index e4a7f14..74dc62f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2410,9 +2410,10 @@ bool CodeGeneratorCTemplate::generateCodeToFile(const std::string &p_outDir, con
     goto closeFile;
   }
 closeFile:
-  if (f != nullptr)
+  if (f != nullptr && std::fclose(f) != 0 && rv)
   {
-    std::fclose(f);
+    std::fprintf(stderr, "Error writing into %s: %s", outFilename.c_str(), strerror(errno));
+    rv = false;
   }
 
   return rv;
diff --git a/src/easyMockGenerate/src/MainCodeGenerator.cpp b/src/easyMockGenerate/src/MainCodeGenerator.cpp
index 186124c..43e03df 100644
--- a/src/easyMockGenerate/src/MainCodeGenerator.cpp
+++ b/src/easyMockGenerate/src/MainCodeGenerator.cpp
@@ -17,6 +17,10 @@ bool MainCodeGenerator::generateCode(const std::string &outDir, bool ignoreParse
     fprintf(stderr, "Parsing of %s failed.\n\r", m_filename.c_str());
     return false;
   }
-  m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
+  if(!m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt))
+  {
+    fprintf(stderr, "Generating the mock of %s failed.\n\r", m_filename.c_str());
+    return false;
+  }
   return true;
 }
-- 
2.43.0


From 90b4ffc45a7964c968b555dc32dc8c0b8a24bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 12/47] fix: --cwd also applies to the checks of the paths
 given to -i and -o

The help says that relative paths given to -i and -o are taken from the
directory given to --cwd, but they were only accepted when they existed
relative to the directory EasyMockGenerate was started from.
---
 .../src/CmdLineParser/CmdLineParser.cpp       | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index f6e7819..054d292 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -51,12 +51,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_regular_file(opt.m_inputHeaderFile))
-        {
-          opt.m_errorMessage = g_inputFileIsntRegular;
-          opt.m_inputHeaderFile.clear();
-          return opt;
-        }
         argIdx++;
       }
     }
@@ -74,12 +68,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_directory(opt.m_outputDir))
-        {
-          opt.m_errorMessage = g_outputDirIsntDir;
-          opt.m_outputDir.clear();
-          return opt;
-        }
         argIdx++;
       }
     }
@@ -223,6 +211,21 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       opt.m_extraArgs.emplace_back(std::string(argv[argIdx]));
     }
   }
+
+  // Relative paths are taken from the directory given to --cwd.
+  const fs::path workingDir(opt.m_changeWorkingDir);
+  if(!opt.m_inputHeaderFile.empty() && !fs::is_regular_file(workingDir / opt.m_inputHeaderFile))
+  {
+    opt.m_errorMessage = g_inputFileIsntRegular;
+    opt.m_inputHeaderFile.clear();
+    return opt;
+  }
+  if(!opt.m_outputDir.empty() && !fs::is_directory(workingDir / opt.m_outputDir))
+  {
+    opt.m_errorMessage = g_outputDirIsntDir;
+    opt.m_outputDir.clear();
+    return opt;
+  }
   if(opt.m_inputHeaderFile.empty())
   {
     opt.m_errorMessage = g_errorInputMissing;
-- 
2.43.0


From a381a42f89c4b486dce208aaacdefc495bb7daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 13/47] fix: include guards of mocks are identifiers whatever
 the header is called

A dot within the name of the header ended the guard, so that the mocks of
a.x.h and a.y.h could not be used together.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 74dc62f..fb965a5 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -4,6 +4,7 @@
  */
 #include <cstdio>
 #include <algorithm>
+#include <cctype>
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
 #include <boost/filesystem.hpp>
@@ -1307,7 +1308,8 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   const auto& fList = p_ctxt.getElementToMock();
   std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
   std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
-  std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
+  // The include guard must be an identifier
+  std::replace_if(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return c < 0x80 && !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
   for (const auto& fun: fList)
-- 
2.43.0


From bd6836765488c9e1296a5d0b7e2f5275de073628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 14/47] fix: separate the object from what follows it in C++
 mock declarations

A mock of a method without parameters but with a return value, or with two or
more parameters, was generated without or with too many commas and did not compile.
---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index fb965a5..ac9b3ef 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -98,6 +98,7 @@
 #define REGULAR_RETURN_SECTION "REGULAR_RETURN_SECTION"
 
 #define IS_FUNCTION_CLASS_CONST "IS_FUNCTION_CLASS_CONST"
+#define FUNCTION_CLASS_SEPARATOR_SECTION "FUNCTION_CLASS_SEPARATOR_SECTION"
 
 #define FUNCTION_NAME_UPPER "FUNCTION_NAME_UPPER"
 #define FUNCTION_MATCHER_LIST_SECTION "FUNCTION_MATCHER_LIST_SECTION"
@@ -369,7 +370,7 @@ IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
 IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
-                  IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", ") \
+                  IF_SECTION_EXISTS(FUNCTION_CLASS_SEPARATOR_SECTION, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
 
@@ -702,7 +703,7 @@ const char templateText[] =
         FUNCTION_EXPECT_AND_RETURN_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_CLASS_SEPARATOR_SECTION, ", "))
                 FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_HARDCODED_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, "easyMock_null")
               ");" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -711,7 +712,7 @@ const char templateText[] =
              FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE CARRIAGE_RETURN
              "{" CARRIAGE_RETURN
              "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_CLASS_SEPARATOR_SECTION, ", "))
                       FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
                   ");" CARRIAGE_RETURN
              "}" CARRIAGE_RETURN
@@ -1523,6 +1524,11 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     }
   }
   const Parameter::Vector& funParams = p_elemToMock->getFunctionsParameters();
+  if(parentData && (!funParams.empty() || !isRvVoid))
+  {
+    //The comma ',' between the instance and what follows, shown once whatever the number of parameters
+    functionSectionDict->AddSectionDictionary(FUNCTION_CLASS_SEPARATOR_SECTION);
+  }
   generateFunctionParamSection(functionSectionDict, funParams);
   if(p_elemToMock->isVariadic())
   {
-- 
2.43.0


From 21da998b784a580b8060dd777d0ec5d256f0d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 15/47] fix: find the requested comparator of a type whose name
 starts with struct_ or union_

Such a prefix was taken for the keyword which the name of a comparator starts
with, so --generate-comparator-of was ignored for e.g. a typedef named struct_ctx.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ac9b3ef..5d68cf4 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2260,9 +2260,11 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   for(const auto& keyword: keywordList)
   {
     std::string with {};
-    if(toFind.find(keyword) == 0)
+    //Only the keyword that getComparatorName prepends is to be removed, not a part of the type's own name
+    if(getTypeDefName(p_composedType).empty() && toFind.find(keyword) == 0)
     {
       toFind.replace(0, std::strlen(keyword), with.data(), with.length());
+      break;
     }
   }
   bool forceGenerateAll = std::find(std::begin(m_comparatorList), std::end(m_comparatorList), "EasyMock_all_comparators") != std::end(m_comparatorList);
-- 
2.43.0


From faff5f16c44b1e844299bbf517538e85de14321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 16/47] fix: do not mock a function which is defined by another
 of its declarations

A function declared and then defined in the header was mocked, which
redefined it.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1e82f64..0d2b63b 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -202,9 +202,10 @@ public:
       parentData->addFunction(f);
     }
     bool isInline = func->isInlined();
-    bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody();
     bool isStatic = func->isStatic();
     f->setVariadic(func->isVariadic());
+    //The body of a function which could be mocked can also come with another of its declarations
+    bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody() || (!isStatic && func->hasBody());
     f->setInlined(isInline);
     f->setIsStatic(isStatic);
     f->setDoesThisDeclarationHasABody(doesThisDeclHasABody);
-- 
2.43.0


From 66624740d5e00f21923821b331948aa6614e4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 17/47] fix: remove the exact macro from a return type

A macro was also removed from the middle of a longer name, so a return type
XAPI_T lost its XAPI. A regex special character in the arguments of a macro was
not matched, or ended the generator.
---
 .../src/LLVMParser/LLVMParser.cpp               | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 0d2b63b..7b35189 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -29,6 +29,7 @@
 
 #include <boost/filesystem.hpp>
 
+#include <cctype>
 #include <string>
 #include <vector>
 #include <unordered_map>
@@ -352,13 +353,17 @@ private:
   void removeFromString(std::string &declString, std::string macroStr, bool hasParameter)
   {
     /*
-     * It is needed to escape "(" and ")" in case there are some so that they are not taken as group inside the
-     * std::regex
+     * It is needed to escape the characters which are special inside the std::regex. The macro must not be removed
+     * from the middle of another name.
      */
-    static std::regex leftParentRegex{"\\("};
-    static std::regex rightParentRegex{"\\)"};
-    macroStr = std::regex_replace(macroStr, leftParentRegex, "\\(");
-    macroStr = std::regex_replace(macroStr, rightParentRegex, "\\)");
+    static std::regex specialCharRegex{"[.^$|()\\[\\]{}*+?\\\\]"};
+    const bool endsWithName = !macroStr.empty() && (std::isalnum(static_cast<unsigned char>(macroStr.back())) || macroStr.back() == '_');
+    macroStr = std::regex_replace(macroStr, specialCharRegex, "\\$&");
+    macroStr.insert(0, "\\b");
+    if(endsWithName)
+    {
+      macroStr.append("\\b");
+    }
     /*
      * The macro string doesn't contain any parameter. Matching any parameter is added by hand.
      */
-- 
2.43.0


From 8973e8be9a63f25c77f83627447afaee26f9dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 18/47] fix: do not loop forever on a declaration which starts
 with an attribute macro

The search walked through the macro's own source locations instead of the
header's, and got stuck.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7b35189..60e3c0d 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -437,7 +437,7 @@ private:
      * This is needed because some attribute like "noreturn" aren't part of the function attribute list for
      * LLVM.
      */
-    clang::SourceLocation itrSource = beginSourceLocation;
+    clang::SourceLocation itrSource = m_SM->getExpansionLoc(beginSourceLocation);
     while(m_SM->isBeforeInTranslationUnit(itrSource,startOfFunNameLocation))
     {
       //itrSource = clang::Lexer::GetBeginningOfToken(itrSource, *m_SM, *m_LO);
@@ -458,7 +458,7 @@ private:
           removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
         }
       }
-      itrSource = itrSource.getLocWithOffset(currentTokenStr.length());
+      itrSource = rawToken.getEndLoc();
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-- 
2.43.0


From c531155ada6db488d10ad91e09530e10dd704620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 19/47] fix: remove specifiers only as whole words from a
 return type

A type named is_extern lost its end. A specifier which no space follows, and
_Noreturn, were kept.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 60e3c0d..7de2824 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -462,9 +462,8 @@ private:
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-    eraseInString(declString, "inline ");
-    eraseInString(declString, "extern ");
-    eraseInString(declString, "static ");
+    static std::regex removeSpecifierRegex{"\\b(inline|extern|static|_Noreturn)\\b[[:space:]]*"};
+    declString = std::regex_replace(declString, removeSpecifierRegex, "");
     declString = trim(declString);
     setDeclaratorDeclareString(rvQualType, &rv, declString);
 
@@ -1107,15 +1106,6 @@ private:
     return func->getNameInfo().getName().getAsString();
   }
 
-  void eraseInString(std::string &string,const std::string& toErase)
-  {
-    size_t pos = string.find(toErase);
-    if(pos != std::string::npos)
-    {
-        string.erase(pos, toErase.length());
-    }
-  }
-
   std::string getTypedefName(const clang::Type &type)
   {
     const clang::TypedefType* TDT = type.getAs<clang::TypedefType>();
-- 
2.43.0


From 51be84c441716ff2cb6feacfd19dcad2a1e1c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 20/47] fix: mock all functions of one declaration

The declarators before a function were taken as a part of its return type, and
the mock did not compile.
---
 .../src/LLVMParser/LLVMParser.cpp             | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7de2824..de18ce8 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -465,11 +465,40 @@ private:
     static std::regex removeSpecifierRegex{"\\b(inline|extern|static|_Noreturn)\\b[[:space:]]*"};
     declString = std::regex_replace(declString, removeSpecifierRegex, "");
     declString = trim(declString);
-    setDeclaratorDeclareString(rvQualType, &rv, declString);
+    if(!hasTopLevelComma(declString))
+    {
+      setDeclaratorDeclareString(rvQualType, &rv, declString);
+    }
 
     return rv;
   }
 
+  /*!
+   * \brief Tells whether other functions are declared before the one the given string belongs to.
+   *
+   * E.g. `int f(int a), g(int a);`. The text before the name of the last function is not only its return type.
+   */
+  static bool hasTopLevelComma(const std::string& declString)
+  {
+    int nesting = 0;
+    for(const char c : declString)
+    {
+      if(c == '(' || c == '<')
+      {
+        nesting++;
+      }
+      else if(c == ')' || c == '>')
+      {
+        nesting--;
+      }
+      else if(c == ',' && nesting == 0)
+      {
+        return true;
+      }
+    }
+    return false;
+  }
+
   std::shared_ptr<const Namespace> getNamespace(const clang::DeclContext* declContext)
   {
     if(!declContext)
-- 
2.43.0


From e1d48932a504a0e4bd301f11b319453792943710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 21/47] fix: use the namespace which encloses a function

A function was put in any namespace that its header declares.
---
 .../src/LLVMParser/LLVMParser.cpp                | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index de18ce8..7098b7a 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -505,19 +505,13 @@ private:
     {
       return getGlobalNamespace();
     }
-    const clang::DeclContext* parentContext = declContext->getParent();
-    for(auto lookup : declContext->lookups())
+    auto enclosingNamespace = getNamespace(declContext->getParent());
+    const auto* namespaceDecl = clang::dyn_cast<clang::NamespaceDecl>(declContext);
+    if(namespaceDecl)
     {
-      for (auto namedDecl: lookup)
-      {
-        if(namedDecl->getKind() == clang::Decl::Kind::Namespace)
-        {
-          const auto enclosingNamespace = getNamespace(parentContext);
-          return std::make_shared<const Namespace>(namedDecl->getNameAsString(), enclosingNamespace);
-        }
-      }
+      return std::make_shared<const Namespace>(namespaceDecl->getNameAsString(), std::move(enclosingNamespace));
     }
-    return getNamespace(parentContext);
+    return enclosingNamespace;
   }
 
   Parameter::Vector getFunctionParameters(const clang::FunctionDecl* func)
-- 
2.43.0


From 0627d7ef9571b4a1cbb535ef3f8a330cb6037502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 22/47] fix: keep the reference of a return type

A function returning int & was mocked as if it returned int.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7098b7a..1be8862 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -604,6 +604,7 @@ private:
               declareString.back() != '\r' &&
               declareString.back() != '\t' &&
               declareString.back() != '*' &&
+              declareString.back() != '&' &&
               declareString.back() != ')')
       {
         declareString.pop_back();
-- 
2.43.0


From 0c68d51c0f8cf49659d0cffb18fb027cc8832cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 23/47] fix: do not let parameters clash with the local
 variables of a mock

---
 .../CodeGeneratorCTemplate.cpp                | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 5d68cf4..ae71b07 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -422,11 +422,11 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_returnValue"
 #define FUNCTION_MOCK_DATA_CUR_MATCH_VAR \
 FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 
-#define CURRENT_DATA_CALL "currentDataCall"
+#define CURRENT_DATA_CALL "easyMock_currentDataCall"
 #define CURRENT_DATA_CALL_MEMBER(member) CURRENT_DATA_CALL "." member
 #define CURRENT_DATA_CALL_PTR(member) "*" CURRENT_DATA_CALL "." member
 
-#define MOCKED_DATA "mockedData"
+#define MOCKED_DATA "easyMock_mockedData"
 #define MOCKED_DATA_MEMBER(member) MOCKED_DATA "." member
 
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
@@ -610,38 +610,38 @@ const char templateText[] =
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, TEMPLATE_INCL_SECTION(NAMESPACE_BEGIN_SECTION) CARRIAGE_RETURN)
         TEMPLATE_FUNCTION_TO_BE_MOCKED CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
-        "    easyMock_bool printCallStack = easyMock_printCallStack();" CARRIAGE_RETURN
-        "    easyMock_bool checkCallsOrder = easyMock_checkCallsOrder();" CARRIAGE_RETURN
+        "    easyMock_bool easyMock_withCallStack = easyMock_printCallStack();" CARRIAGE_RETURN
+        "    easyMock_bool easyMock_ordered = easyMock_checkCallsOrder();" CARRIAGE_RETURN
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
+              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> easyMock_default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
-              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(default_res));" CARRIAGE_RETURN
+              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " easyMock_default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
+              "    easyMock_memcpy((void*)&easyMock_default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(easyMock_default_res));" CARRIAGE_RETURN
           )
           CARRIAGE_RETURN
         )
         "    if(!MockedFunction_addActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "))" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        easyMock_addError(printCallStack, \"Error : unexpected call of '%s'." IF_RETURN_VALUE(" " FUNCTION_NAME " is returning a random value.") "\", MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
-        "        return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
+        "        easyMock_addError(easyMock_withCallStack, \"Error : unexpected call of '%s'." IF_RETURN_VALUE(" " FUNCTION_NAME " is returning a random value.") "\", MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
+        "        return" IF_RETURN_VALUE(" easyMock_default_res") ";" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         CARRIAGE_RETURN
         "    " FUNCTION_MOCK_DATA_TYPE " " CURRENT_DATA_CALL ";" CARRIAGE_RETURN
         "    if (!MockedFunction_getCurrentCallParam(&" TEMPLATE_MOCKED_FUN_CLASS ", &" CURRENT_DATA_CALL "))" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        easyMock_addError(printCallStack, \"BUG IN EASYMOCK: CONTACT THE DEVELOPER TO FIX THIS\");" CARRIAGE_RETURN
-        "        return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
+        "        easyMock_addError(easyMock_withCallStack, \"BUG IN EASYMOCK: CONTACT THE DEVELOPER TO FIX THIS\");" CARRIAGE_RETURN
+        "        return" IF_RETURN_VALUE(" easyMock_default_res") ";" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         CARRIAGE_RETURN
         IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
         "    if(" CURRENT_DATA_CALL_MEMBER("instance") " && " CURRENT_DATA_CALL_MEMBER("instance") " != this)" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        std::ostringstream errorMessage{};" CARRIAGE_RETURN
-        "        errorMessage << \"Expecting this object being \" << " CURRENT_DATA_CALL_MEMBER("instance") " << \", got this = \" << this << std::endl" ";" CARRIAGE_RETURN
-        "        easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage.str().c_str());" CARRIAGE_RETURN
+        "        std::ostringstream easyMock_errorMessage{};" CARRIAGE_RETURN
+        "        easyMock_errorMessage << \"Expecting this object being \" << " CURRENT_DATA_CALL_MEMBER("instance") " << \", got this = \" << this << std::endl" ";" CARRIAGE_RETURN
+        "        easyMock_addError(easyMock_withCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), easyMock_errorMessage.str().c_str());" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
@@ -649,43 +649,43 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION,
         "    if(" CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) " != easyMock_null)" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        char errorMessage[EASYMOCK_MAX_CMP_ERR] = {0};" CARRIAGE_RETURN
-        "        void *curCallVal = (void *) &" PARAMETER_NAME("") ";" CARRIAGE_RETURN
+        "        char easyMock_errorMessage[EASYMOCK_MAX_CMP_ERR] = {0};" CARRIAGE_RETURN
+        "        void *easyMock_curCallVal = (void *) &" PARAMETER_NAME("") ";" CARRIAGE_RETURN
         "        void *expectedCallVal = (void *) &" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
         "        EasyMock_Matcher matcher = " CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ";" CARRIAGE_RETURN
-        "        int error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
+        "        int error = matcher(easyMock_curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", easyMock_errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
-        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage);" CARRIAGE_RETURN
+        "            easyMock_addError(easyMock_withCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), easyMock_errorMessage);" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         )
         IF_SECTION_EXISTS(CPP_ONLY_SECTION,
         "    if(" CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ")" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        std::ostringstream errorMessage{};" CARRIAGE_RETURN
-        "        auto& curCallVal = " PARAMETER_NAME("") ";" CARRIAGE_RETURN
+        "        std::ostringstream easyMock_errorMessage{};" CARRIAGE_RETURN
+        "        auto& easyMock_curCallVal = " PARAMETER_NAME("") ";" CARRIAGE_RETURN
         "        auto& expectedCallVal = " CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
         "        auto& matcher = " CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ";" CARRIAGE_RETURN
-        "        bool error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
+        "        bool error = matcher(easyMock_curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", easyMock_errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
-        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage.str().c_str());" CARRIAGE_RETURN
+        "            easyMock_addError(easyMock_withCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), easyMock_errorMessage.str().c_str());" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION)
-        IF_RETURN_VALUE("    default_res = currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
+        IF_RETURN_VALUE("    easyMock_default_res = easyMock_currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
         CARRIAGE_RETURN
-        "    CSTRING_AUTOCLEAN(currentCall) = easyMock_popCurrentCall();" CARRIAGE_RETURN
-        "    if(checkCallsOrder)" CARRIAGE_RETURN
+        "    CSTRING_AUTOCLEAN(easyMock_currentCall) = easyMock_popCurrentCall();" CARRIAGE_RETURN
+        "    if(easyMock_ordered)" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         "        const char* curFuncCall = MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS ");" CARRIAGE_RETURN
-        "        if(cstring_compare_const_char(&currentCall, curFuncCall) != 0)" CARRIAGE_RETURN
+        "        if(cstring_compare_const_char(&easyMock_currentCall, curFuncCall) != 0)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
-        "            easyMock_addError(printCallStack, \"Error : got call to '%s',  but was expecting call to '%s'\", MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), cstring_c_str(&currentCall));" CARRIAGE_RETURN
-        "            return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
+        "            easyMock_addError(easyMock_withCallStack, \"Error : got call to '%s',  but was expecting call to '%s'\", MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), cstring_c_str(&easyMock_currentCall));" CARRIAGE_RETURN
+        "            return" IF_RETURN_VALUE(" easyMock_default_res") ";" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_PTR_SECTION)
@@ -694,7 +694,7 @@ const char templateText[] =
         "        easyMock_memcpy((void*)" PARAMETER_NAME("") ", (void*)" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME(MOCK_OUT_PREFIX)) ", " IF_SECTION_EXISTS(FUNCTION_VOID_PTR_OUT_SECTION, CURRENT_DATA_CALL_MEMBER(PARAMETER_OUT_SIZE_VAR)) IF_SECTION_EXISTS(FUNCTION_NON_VOID_PTR_OUT_SECTION, "sizeof(*" PARAMETER_NAME("") ")" ) ");" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
-        IF_RETURN_VALUE(CARRIAGE_RETURN "    return default_res;" CARRIAGE_RETURN)
+        IF_RETURN_VALUE(CARRIAGE_RETURN "    return easyMock_default_res;" CARRIAGE_RETURN)
         "}" CARRIAGE_RETURN
         CARRIAGE_RETURN
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, TEMPLATE_INCL_SECTION(NAMESPACE_END_SECTION) CARRIAGE_RETURN
@@ -745,7 +745,7 @@ const char templateText[] =
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
 
         IF_RETURN_VALUE("    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = to_return;" CARRIAGE_RETURN CARRIAGE_RETURN)
-        "    MockedFunction_addExpectedCall(&" TEMPLATE_MOCKED_FUN_CLASS ", &mockedData);" CARRIAGE_RETURN
+        "    MockedFunction_addExpectedCall(&" TEMPLATE_MOCKED_FUN_CLASS ", &easyMock_mockedData);" CARRIAGE_RETURN
         "    easyMock_addCall(MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
         CARRIAGE_RETURN
-- 
2.43.0


From 57f3ed6408a8c1cbbaed5b625e20281a39ab70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 24/47] fix: do not mock constructors, destructors, operators
 and templates

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1be8862..b2903d9 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -141,6 +141,11 @@ public:
 
   std::shared_ptr<FunctionDeclaration> getFunctionDeclaration(const clang::FunctionDecl* func)
   {
+    //Constructors, destructors, operators and templates cannot be mocked
+    if(!func->getDeclName().isIdentifier() || func->isTemplated() || func->getPrimaryTemplate())
+    {
+      return nullptr;
+    }
     const std::string funName = getFunctionName(func);
     if(!m_mockOnlyList.empty() && std::find(std::begin(m_mockOnlyList), std::end(m_mockOnlyList), funName) == std::end(m_mockOnlyList))
     {
-- 
2.43.0


From c216adbea71fd3c5545d0e3b6625735b58fac583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 25/47] fix: mock virtual and friend functions

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index b2903d9..1314097 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -467,7 +467,7 @@ private:
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-    static std::regex removeSpecifierRegex{"\\b(inline|extern|static|_Noreturn)\\b[[:space:]]*"};
+    static std::regex removeSpecifierRegex{"\\b(inline|extern|static|virtual|friend|_Noreturn)\\b[[:space:]]*"};
     declString = std::regex_replace(declString, removeSpecifierRegex, "");
     declString = trim(declString);
     if(!hasTopLevelComma(declString))
-- 
2.43.0


From a3e1e4abe24c0a0aa63b0e33ac202d58e34d6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 26/47] fix: parse headers as C++ for C++ mocks

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1314097..e36a779 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1325,6 +1325,10 @@ CodeParser_errCode LLVMParser::getElementToMockContext(ElementToMockContext& p_c
   llvm::Twine twineDir(dir);
   //Place holder variable to add default hardcoded arguments to the tool if we need to
   std::vector<std::string> LLVMExtraArgs({});
+  if(m_forceCpp)
+  {
+    LLVMExtraArgs.insert(LLVMExtraArgs.end(), {"-x", "c++"});
+  }
   for(const std::string& extraArg: m_flags)
   {
     LLVMExtraArgs.emplace_back(extraArg);
-- 
2.43.0


From d75e12ac15e67855812d737b37cf72ca79c846d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 27/47] fix: mock methods of structures and unions

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index e36a779..437a5f2 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -85,7 +85,7 @@ std::string trim(const std::string &s) {
  * If we don't store the ClassType object in the function object as weak_ptr, this creates an
  * indirect memory leak.
  */
-UniqueStdSharePtrObjectSet<ClassType> globalListOfClasses;
+UniqueStdSharePtrObjectSet<ComposableType> globalListOfClasses;
 }
 
 struct ParserConfig
@@ -181,6 +181,7 @@ public:
       auto type = getEasyMocktype(qualType, structKnownType, false);
       assert(type->isComposableType());
       parentData = std::dynamic_pointer_cast<ComposableType>(type);
+      globalListOfClasses.addObject(parentData);
       const clang::AccessSpecifier accessSpecifier = func->getAccess();
       switch(accessSpecifier)
       {
@@ -914,7 +915,6 @@ private:
       case CLASS:
         auto classType = std::make_shared<ClassType>(typeName, isEmbeddedInOtherType);
         incType = IncompleteType::Type::CLASS;
-        globalListOfClasses.addObject(classType);
         sType = classType;
         break;
     }
-- 
2.43.0


From 4737825d12e94d6534071aad83141cfb11cdbc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 28/47] fix: hash classes whose methods use the class itself

---
 src/easyMockGenerate/src/ComposableType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index b2f3fcb..6fd0917 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -45,8 +45,8 @@ std::size_t ComposableType::getHash() const noexcept
   boost::hash_combine(seed, m_is_forward_declared);
   for(const auto& function : m_functions)
   {
-    //const auto f_ptr = function.lock();
-    boost::hash_combine(seed, *function);
+    //The types used by a method can contain the composable type itself
+    boost::hash_combine(seed, function->getFunctionPrototype());
   }
 
   return seed;
-- 
2.43.0


From 90229c8bcf161ae78ee75c9359f2a291468d351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 29/47] fix: store const pointer parameters and references to
 pointers in C++ mocks

---
 .../CodeGeneratorCTemplate.cpp                | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ae71b07..0a3076d 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -78,7 +78,6 @@
 #define FUNCTION_PARAM_TYPE "FUNCTION_PARAM_TYPE"
 #define FUNCTION_PARAM_NON_QUALIFIED_TYPE "FUNCTION_PARAM_NON_QUALIFIED_TYPE"
 #define FUNCTION_PARAM_DEREFERENCED_TYPE "FUNCTION_PARAM_DEREFERENCED_TYPE"
-#define PARAMETER_RAW_TYPE "PARAMETER_RAW_TYPE"
 #define FUNCTION_PARAM_NAME "TYPEDEF_PARAM_NAME"
 #define FUNCTION_MATCHER_PARAM_NAME "FUNCTION_MATCHER_PARAM_NAME"
 #define FUNCTION_RETURN_VALUE_PARAM_SECTION "FUNCTION_RETURN_VALUE_PARAM_SECTION"
@@ -260,7 +259,6 @@
 #define PARAMETER_TYPE TEMPLATE_VAR(FUNCTION_PARAM_TYPE)
 #define PARAMETER_NON_QUALIFIED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_NON_QUALIFIED_TYPE)
 #define PARAMETER_DEREFERENCED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_DEREFERENCED_TYPE)
-#define TEMPLATE_PARAMETER_RAW_TYPE TEMPLATE_VAR(PARAMETER_RAW_TYPE)
 #define FUNCTION_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_RETURN_VALUE)
 #define FUNCTION_TO_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_TO_RETURN_VALUE)
 #define FUNCTION_NAME TEMPLATE_VAR(FUNCTION_NAME_VAR)
@@ -571,7 +569,7 @@ const char templateText[] =
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
-          "    " DECLARE_REFERENCE_MEMBERS("    ", PARAMETER_NAME(""), PARAMETER_DEREFERENCED_TYPE, TEMPLATE_PARAMETER_RAW_TYPE) "; // Reference member section" CARRIAGE_RETURN
+          "    " DECLARE_REFERENCE_MEMBERS("    ", PARAMETER_NAME(""), PARAMETER_DEREFERENCED_TYPE, PARAMETER_NON_QUALIFIED_TYPE) "; // Reference member section" CARRIAGE_RETURN
         )
         IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
           "    " DECLARE_NON_QUALIFIED_PARAMETER("") "; // Regular member section" CARRIAGE_RETURN
@@ -590,7 +588,7 @@ const char templateText[] =
           CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_PTR_SECTION)
-        "    " DECLARE_PARAMETER(MOCK_OUT_PREFIX) ";" CARRIAGE_RETURN
+        "    " DECLARE_NON_QUALIFIED_PARAMETER(MOCK_OUT_PREFIX) ";" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
         "    easyMock_size_t " PARAMETER_OUT_SIZE_VAR ";" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_VOID_PTR_OUT_SECTION)
@@ -1598,19 +1596,16 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     if(nonQualifiedParamRefType)
     {
       functionParamSection->AddSectionDictionary(REFERENCE_MEMBER_SECTION);
-      functionParamSection->SetValue(PARAMETER_RAW_TYPE, rawType->getName());
     }
     else
     {
       functionParamSection->AddSectionDictionary(REGULAR_MEMBER_SECTION);
     }
-    if(!nonQualifiedParamPtrType)
-    {
-      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, dereferencedNonQualifiedArgType);
-    }
-    else
+    //A const pointer must be stored in a pointer which can be written
+    const std::string nonQualifiedArgType = !nonQualifiedParamPtrType || paramType->isConst() ? dereferencedNonQualifiedArgType : argType;
+    functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, nonQualifiedArgType);
+    if(nonQualifiedParamPtrType)
     {
-      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
       const TypeItf *paramPtrPointedType = getRawType(nonQualifiedParamPtrType);
       const FunctionType *ft = paramPtrPointedType->asFunctionType();
       if(ft)
@@ -1661,7 +1656,6 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
           ptrSectionAdded = true;
         }
         ctemplate::TemplateDictionary* newPtrParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_PTR_SECTION);
-        //No need to add the FUNCTION_PARAM_NON_QUALIFIED_TYPE because we will not generate output pointer for const
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
@@ -1729,6 +1723,7 @@ void CodeGeneratorCTemplate::generateFieldCmp(std::string& p_condition, const Co
       p_condition.append(p_varName);
       p_condition.append("->");
       p_condition.append(p_previousField->getName());
+        newPtrParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, nonQualifiedArgType);
       /*
        * If the parent composable type is an union, we do not need to add sizeof
        * because all of the elements of the union have the same base address
-- 
2.43.0


From 197616bb4949fb8f2b002ada7fa0123536c6df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 30/47] fix: mock functions with the same name in other scopes
 and overloaded functions

---
 .../include/CodeGeneratorCTemplate.h          |  3 +
 .../CodeGeneratorCTemplate.cpp                | 77 +++++++++++++++----
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 6f67809..000d072 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -10,6 +10,7 @@
 #include <ctemplate/template.h>
 #include <string>
 #include <unordered_set>
+#include <set>
 #include <unordered_map>
 #include <memory>
 
@@ -107,6 +108,8 @@ private:
   const TypeItf* getMostPointedType(const TypeItf* p_type);
 
   std::unordered_set<std::string> m_generatedComparator;
+  std::unordered_map<std::string, unsigned int> m_nbFunctionsByName;
+  std::unordered_map<std::size_t, std::set<std::size_t>> m_homonyms;
   unsigned int m_nbUnamedParam;
   ctemplate::TemplateDictionary *m_rootDictionary;
   ctemplate::TemplateDictionary *m_generateMockedTypeSection;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 0a3076d..392e1ad 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -8,6 +8,7 @@
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
 #include <boost/filesystem.hpp>
+#include <boost/functional/hash.hpp>
 #include <unordered_set>
 
 #include "TypeItf.h"
@@ -89,6 +90,11 @@
 
 #define FUNCTION_CLASS_NAME_VAR "FUNCTION_CLASS_NAME_VAR"
 #define FUNCTION_CLASS_NAME TEMPLATE_VAR(FUNCTION_CLASS_NAME_VAR)
+#define FUNCTION_SCOPE_VAR "FUNCTION_SCOPE_VAR"
+#define FUNCTION_SCOPE TEMPLATE_VAR(FUNCTION_SCOPE_VAR)
+#define FUNCTION_IS_AMBIGUOUS_SECTION "FUNCTION_IS_AMBIGUOUS_SECTION"
+#define FUNCTION_UNIQUE_SUFFIX_VAR "FUNCTION_UNIQUE_SUFFIX_VAR"
+#define FUNCTION_UNIQUE_SUFFIX TEMPLATE_VAR(FUNCTION_UNIQUE_SUFFIX_VAR)
 #define IS_FUNCTION_CLASS_NAME "IS_FUNCTION_CLASS_NAME"
 
 #define REFERENCE_MEMBER_SECTION "REFERENCE_MEMBER_SECTION"
@@ -367,7 +373,7 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
-IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
+IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_SCOPE FUNCTION_CLASS_NAME "* instance" \
                   IF_SECTION_EXISTS(FUNCTION_CLASS_SEPARATOR_SECTION, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
@@ -379,7 +385,7 @@ FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXIST
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectReturnAndOutput"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME \
-FUNCTION_NAME "_ExpectReturnAndOutput_common"
+FUNCTION_NAME "_ExpectReturnAndOutput_common" FUNCTION_UNIQUE_SUFFIX
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE_PARAM \
 FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_LIST(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
@@ -412,7 +418,7 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 "static easyMock_bool " VERIFY_ALL_MOCK_FUNCTION_NAME "()"
 
 #define FUNCTION_MOCK_DATA_TYPE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_data"
+FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_data" FUNCTION_UNIQUE_SUFFIX
 
 #define FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE \
 FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_returnValue"
@@ -430,9 +436,12 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED TEMPLATE_FUNCTION_IN_SCOPE("")
+//The name of a function only contains its namespaces when they are needed to tell it from another function
+#define TEMPLATE_MOCKED_FUN_NAME TEMPLATE_FUNCTION_IN_SCOPE(IF_SECTION_EXISTS(FUNCTION_IS_AMBIGUOUS_SECTION, FUNCTION_SCOPE))
+#define TEMPLATE_FUNCTION_IN_SCOPE(SCOPE) FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " SCOPE IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
-#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
+#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME FUNCTION_UNIQUE_SUFFIX)
 
 #define COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_DECL_STRING)
 #define COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_UNIQUE_NAME)
@@ -565,7 +574,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "typedef ")
         "struct " IF_SECTION_EXISTS(CPP_ONLY_SECTION, FUNCTION_MOCK_DATA_TYPE) " {" CARRIAGE_RETURN
         IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
-          "    ::" FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
+          "    ::" FUNCTION_SCOPE FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
@@ -599,7 +608,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, "static MockedCppFunction<" FUNCTION_MOCK_DATA_TYPE "> " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_RETURN_VALUE(
-          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
+          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_NAME FUNCTION_UNIQUE_SUFFIX TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "{}")
           ";"
           CARRIAGE_RETURN
@@ -613,11 +622,11 @@ const char templateText[] =
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> easyMock_default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
+              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> easyMock_default_res { dummyRes_" FUNCTION_NAME FUNCTION_UNIQUE_SUFFIX " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
               "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " easyMock_default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&easyMock_default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(easyMock_default_res));" CARRIAGE_RETURN
+              "    easyMock_memcpy((void*)&easyMock_default_res, (void*)&dummyRes_" FUNCTION_NAME FUNCTION_UNIQUE_SUFFIX ", sizeof(easyMock_default_res));" CARRIAGE_RETURN
           )
           CARRIAGE_RETURN
         )
@@ -760,7 +769,7 @@ const char templateText[] =
         FUNCTION_INIT_ALL_MOCK_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
-        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_TO_BE_MOCKED "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
+        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_MOCKED_FUN_NAME "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "}"
         CARRIAGE_RETURN
@@ -1223,6 +1232,7 @@ bool CodeGeneratorCTemplate::generateCodeImplementation(const std::string& p_out
   m_generatedTypeEnumSection.clear();
   m_typeToTypedef.clear();
   m_generatedComparator.clear();
+  m_nbFunctionsByName.clear();
 
   std::string filenameToMock = boost::filesystem::path(p_fullPathToHeaderToMock).filename().string();
   fillInMacroDefinition(p_ctxt);
@@ -1297,6 +1307,29 @@ void CodeGeneratorCTemplate::fillInMacroDefinition(const ElementToMockContext& p
   }
 }
 
+/*
+ * What comes before the name of something which is in the given namespace.
+ */
+static std::string getScope(const Namespace& p_namespace)
+{
+  return p_namespace.isGlobal() ? "" : getScope(*p_namespace.m_parent) + p_namespace.m_name + "::";
+}
+
+/*
+ * Functions with the same prototype in different namespaces or classes are different functions.
+ */
+static std::size_t getScopedHash(const FunctionDeclaration& p_function)
+{
+  std::size_t seed { p_function.getRawHash() };
+  boost::hash_combine(seed, *p_function.getNamespace());
+  const auto parentData = p_function.getParentData();
+  if(parentData)
+  {
+    boost::hash_combine(seed, parentData->getName());
+  }
+  return seed;
+}
+
 void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mockedHeader, const ElementToMockContext &p_ctxt)
 {
   m_generateTypes.clear();
@@ -1310,6 +1343,11 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   // The include guard must be an identifier
   std::replace_if(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return c < 0x80 && !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
+  m_homonyms.clear();
+  for (const auto& fun: fList)
+  {
+    m_homonyms[fun->getRawHash()].insert(getScopedHash(*fun));
+  }
   std::unordered_set<std::size_t> generatedElements;
   for (const auto& fun: fList)
   {
@@ -1356,12 +1394,12 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
       {
         continue;
       }
-      std::size_t rawHash = fun->getRawHash();
-      if(generatedElements.find(rawHash) != generatedElements.end())
+      std::size_t scopedHash = getScopedHash(*fun);
+      if(generatedElements.find(scopedHash) != generatedElements.end())
       {
         continue;
       }
-      generatedElements.insert(rawHash);
+      generatedElements.insert(scopedHash);
       generateFunctionSection(m_rootDictionary, fun);
   }
 
@@ -1467,6 +1505,17 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   functionSectionDict->SetValue(FUNCTION_NAME_VAR, *p_elemToMock->getName());
+  functionSectionDict->SetValue(FUNCTION_SCOPE_VAR, getScope(*p_elemToMock->getNamespace()));
+  if(m_homonyms[p_elemToMock->getRawHash()].size() > 1)
+  {
+    functionSectionDict->AddSectionDictionary(FUNCTION_IS_AMBIGUOUS_SECTION);
+  }
+  //Several functions have the same name when they are in different namespaces or classes or when they are overloaded
+  const unsigned int nbSameName = ++m_nbFunctionsByName[*p_elemToMock->getName()];
+  if(nbSameName > 1)
+  {
+    functionSectionDict->SetValue(FUNCTION_UNIQUE_SUFFIX_VAR, "_easyMock" + std::to_string(nbSameName));
+  }
   std::string upperString(*p_elemToMock->getName());
   std::transform(upperString.begin(), upperString.end(), upperString.begin(), ::toupper);
   functionSectionDict->SetValue(FUNCTION_NAME_UPPER, upperString);
@@ -1657,6 +1706,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         }
         ctemplate::TemplateDictionary* newPtrParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_PTR_SECTION);
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
+        newPtrParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, nonQualifiedArgType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
         const ComposableType* composableTypeField = pointedType->asComposableType();
@@ -1723,7 +1773,6 @@ void CodeGeneratorCTemplate::generateFieldCmp(std::string& p_condition, const Co
       p_condition.append(p_varName);
       p_condition.append("->");
       p_condition.append(p_previousField->getName());
-        newPtrParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, nonQualifiedArgType);
       /*
        * If the parent composable type is an union, we do not need to add sizeof
        * because all of the elements of the union have the same base address
-- 
2.43.0


From cdbc51fd13967c978547e528832d462bd9afa874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 31/47] fix: let mocks name the classes whose methods are
 mocked

---
 .../include/CodeGeneratorCTemplate.h            |  1 +
 .../CodeGeneratorCTemplate.cpp                  | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 000d072..0b98ece 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -109,6 +109,7 @@ private:
 
   std::unordered_set<std::string> m_generatedComparator;
   std::unordered_map<std::string, unsigned int> m_nbFunctionsByName;
+  std::set<std::string> m_mockedClasses;
   std::unordered_map<std::size_t, std::set<std::size_t>> m_homonyms;
   unsigned int m_nbUnamedParam;
   ctemplate::TemplateDictionary *m_rootDictionary;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 392e1ad..43057aa 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -217,6 +217,10 @@
 
 #define C_ONLY_SECTION "C_ONLY_SECTION"
 #define CPP_ONLY_SECTION "CPP_ONLY_SECTION"
+//Inside the namespace EasyMock, the name of a class is also the name of the namespace of its methods
+#define USED_CLASS_SECTION "USED_CLASS_SECTION"
+#define USED_CLASS_NAME_VAR "USED_CLASS_NAME_VAR"
+#define USED_CLASS_NAME TEMPLATE_VAR(USED_CLASS_NAME_VAR)
 #define NAMESPACE_IF_CPP_BEGIN \
   IF_SECTION_EXISTS(CPP_ONLY_SECTION, \
   "namespace EasyMock" CARRIAGE_RETURN \
@@ -225,6 +229,9 @@
   IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "namespace " FUNCTION_CLASS_NAME CARRIAGE_RETURN "{" CARRIAGE_RETURN ) \
   "namespace " FUNCTION_NAME CARRIAGE_RETURN \
   "{" \
+  TEMPLATE_BEG_SECTION(USED_CLASS_SECTION) \
+  CARRIAGE_RETURN "using " USED_CLASS_NAME ";" \
+  TEMPLATE_END_SECTION(USED_CLASS_SECTION) \
   )
 
 #define NAMESPACE_IF_CPP_END \
@@ -1343,10 +1350,16 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   // The include guard must be an identifier
   std::replace_if(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return c < 0x80 && !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
+  m_mockedClasses.clear();
   m_homonyms.clear();
   for (const auto& fun: fList)
   {
     m_homonyms[fun->getRawHash()].insert(getScopedHash(*fun));
+    const auto parentData = fun->getParentData();
+    if(parentData)
+    {
+      m_mockedClasses.insert("::" + getScope(*fun->getNamespace()) + parentData->getName());
+    }
   }
   std::unordered_set<std::size_t> generatedElements;
   for (const auto& fun: fList)
@@ -1510,6 +1523,10 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   {
     functionSectionDict->AddSectionDictionary(FUNCTION_IS_AMBIGUOUS_SECTION);
   }
+  for(const auto& mockedClass : m_mockedClasses)
+  {
+    functionSectionDict->AddSectionDictionary(USED_CLASS_SECTION)->SetValue(USED_CLASS_NAME_VAR, mockedClass);
+  }
   //Several functions have the same name when they are in different namespaces or classes or when they are overloaded
   const unsigned int nbSameName = ++m_nbFunctionsByName[*p_elemToMock->getName()];
   if(nbSameName > 1)
-- 
2.43.0


From 8d74f6a50d26c99a0b19cf0293621fda96c957c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 32/47] fix: ask for the size of outputs of incomplete types
 behind a typedef

---
 .../include/CodeGeneratorCTemplate.h                |  1 +
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp   | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 0b98ece..77536c9 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -100,6 +100,7 @@ private:
   void registerTypeDef(const TypeItf* p_type);
   const std::string& getTypeDefName(const TypeItf* p_type);
   const TypeItf* getRawType(const TypeItf* p_type);
+  bool hasTypeKnownSize(const TypeItf* p_type);
   bool hasTypeNonZeroSize(const TypeItf* p_type);
   const TypeItf* getMostDefinedType(const TypeItf* p_type);
   const std::string& getMostDefinedName(const TypeItf* p_type);
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 43057aa..65fa938 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1061,6 +1061,17 @@ bool doesFunctionUsesEmptyEnum(const FunctionDeclaration& fd)
 
 } //namespace
 
+bool CodeGeneratorCTemplate::hasTypeKnownSize(const TypeItf* p_type)
+{
+  const TypeItf* mostDefinedType = getMostDefinedType(p_type);
+  const ComposableType* composableType = mostDefinedType->asComposableType();
+  const Enum* enumType = mostDefinedType->asEnum();
+  const bool isForwardDeclared = composableType && composableType->isForwardDeclared();
+  //A dummy value is generated for the enums without any value
+  const bool isForwardDeclaredEnum = enumType && enumType->getValues().empty() && !m_generateUsedType;
+  return mostDefinedType->getCType() != CTYPE_VOID && !isForwardDeclared && !isForwardDeclaredEnum;
+}
+
 bool CodeGeneratorCTemplate::hasTypeNonZeroSize(const TypeItf* p_type)
 {
   const TypeItf* mostDefinedType = getMostDefinedType(p_type);
@@ -1727,7 +1738,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
         const ComposableType* composableTypeField = pointedType->asComposableType();
-        if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
+        if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()) || !hasTypeKnownSize(nonQualifiedParamPtrType->getPointedType()))
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_VOID_PTR_OUT_SECTION);
         }
-- 
2.43.0


From 1f6bf7af58b8b2c37b3167fad63a64e237d6e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 33/47] fix: generate the requested attributes however they are
 spelled

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 65fa938..b174821 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1435,10 +1435,21 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
 
 void CodeGeneratorCTemplate::generateFunctionAttributes(const std::shared_ptr<const FunctionDeclaration> &f, ctemplate::TemplateDictionary *functionSectionDict)
 {
+  //The attributes can be spelled with underscores (e.g. __weak__) in the header and in the list
+  auto withoutUnderscores = [](const std::string &name)
+  {
+    const bool hasUnderscores = name.size() > 4 && name.compare(0, 2, "__") == 0 && name.compare(name.size() - 2, 2, "__") == 0;
+    return hasUnderscores ? name.substr(2, name.size() - 4) : name;
+  };
+
   const auto& functionAttributeList = f->getAttributes();
   for(const FunctionAttribute& funAttr : functionAttributeList)
   {
-    if(std::find(m_generateAttrList.begin(), m_generateAttrList.end(), funAttr.getName()) == m_generateAttrList.end())
+    auto isSameAttribute = [&](const std::string &attrToGenerate)
+    {
+      return withoutUnderscores(attrToGenerate) == withoutUnderscores(funAttr.getName());
+    };
+    if(std::none_of(m_generateAttrList.begin(), m_generateAttrList.end(), isSameAttribute))
     {
       continue;
     }
-- 
2.43.0


From 870caa88a38ebd895b4046d818bffebf56ba6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 34/47] fix: compare members which are typedefs of pointers by
 their address

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index b174821..f50d687 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1861,8 +1861,7 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
   static unsigned int s_nbAnonymousField = 0;
 
   const TypeItf* curFieldType = p_curField->getType();
-  const TypeItf* unqualType = curFieldType->unqualify();
-  const bool isPointer = unqualType->isPointer();
+  const bool isPointer = getUnqualifiedAndUntypedefType(curFieldType)->isPointer();
   const TypeItf* rawCurFieldType = getRawType(curFieldType);
   const ComposableType* curFieldComposableType = rawCurFieldType->asComposableType();
   const IncompleteType* incompleteType = rawCurFieldType->asIncompleteType();
-- 
2.43.0


From 6815dccd41d4b625bdefad65b3318ba40ca2cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 35/47] fix: keep tags and typedef names apart when looking up
 the types already parsed

---
 .../src/LLVMParser/LLVMParser.cpp                | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 437a5f2..d7aaf1e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -864,17 +864,19 @@ private:
     std::string typeName = RD->getNameAsString();
     std::string typedDefName = getTypedefName(p_type);
 
+    //The tag of one type can also be the typedef name of another. A name without space is a typedef name.
+    const std::string tagName = typeName + std::string{" "};
     if(structKnownType.find(typedDefName) != structKnownType.end())
     {
       return structKnownType.at(typedDefName);
     }
-    if(structKnownType.find(typeName) != structKnownType.end())
+    if(structKnownType.find(tagName) != structKnownType.end())
     {
-      return structKnownType.at(typeName);
+      return structKnownType.at(tagName);
     }
 
-    std::string declToCheck = typeName + std::string{"_"} + typedDefName;
-    if(declToCheck.compare("_") != 0)
+    std::string declToCheck = tagName + typedDefName;
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) != m_cachedStruct.end())
       {
@@ -924,7 +926,7 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.insert({typeName, std::make_shared<IncompleteType>(*sType, incType)});
+      structKnownType.insert({tagName, std::make_shared<IncompleteType>(*sType, incType)});
     }
 
     // If the type doesn't have a complete definition, it is forward declared.
@@ -981,10 +983,10 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.erase(typeName);
+      structKnownType.erase(tagName);
     }
 
-    if(declToCheck.compare("_") != 0)
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) == m_cachedStruct.end())
       {
-- 
2.43.0


From be76f825a52e8230113ce7b3f78b715f0980aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 36/47] fix: remove each comment of a declaration on its own

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index d7aaf1e..9f7e2da 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -568,8 +568,8 @@ private:
         c = ' ';
       }
     }
-    static std::regex commentRegex{"/\\*.*\\*/"};
-    declareString = std::regex_replace(declareString, commentRegex, "");
+    static std::regex commentRegex{"/\\*.*?\\*/"};
+    declareString = std::regex_replace(declareString, commentRegex, " ");
 
     return declareString;
   }
@@ -579,7 +579,7 @@ private:
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
     clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-    std::string declareString = strRef.str();
+    std::string declareString = removeComments(strRef.str());
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
@@ -616,7 +616,6 @@ private:
         declareString.pop_back();
       }
     }
-    declareString = removeComments(std::move(declareString));
     declareString = trim(std::move(declareString));
 
     return declareString;
-- 
2.43.0


From 869968ecf0e4d7824f10cfa835d8dd4791f7d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 37/47] fix: parse the types which members hold by value even
 when they are being parsed

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 9f7e2da..74238d8 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -939,7 +939,15 @@ private:
         const clang::QualType &qualType = FD->getType();
         const clang::Type *typePtr = qualType.getTypePtr();
         std::string fName = FD->getNameAsString();
-        auto fieldType = getEasyMocktype(qualType, structKnownType, true);
+        //A type being parsed is only known by name, which isn't enough for a member holding such a type by value.
+        structKnownTypeMap fieldKnownType = structKnownType;
+        const clang::Type *elementType = m_context->getBaseElementType(qualType).getTypePtr();
+        if (const auto *fieldRecord = elementType->getAs<clang::RecordType>())
+        {
+          fieldKnownType.erase(getTypedefName(*elementType));
+          fieldKnownType.erase(fieldRecord->getDecl()->getNameAsString() + std::string{" "});
+        }
+        auto fieldType = getEasyMocktype(qualType, fieldKnownType, true);
 
         if (FD->isBitField())
         {
-- 
2.43.0


From 4cc48351dc68e08516c0ef056ee8c11c95b06e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 38/47] fix: don't repeat the parameters of a pointer to
 function declared by a typedef

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f50d687..c8c299e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2309,7 +2309,13 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         const Pointer* nonQualifiedFieldPtrType = fieldType->unqualify()->asPointer();
         if(nonQualifiedFieldPtrType)
         {
-          const FunctionType *ft = getRawType(nonQualifiedFieldPtrType)->asFunctionType();
+          //The typedef of a pointer to function already declares the function's parameters
+          const TypeItf *declaredType = nonQualifiedFieldPtrType;
+          while(const Pointer* ptrType = declaredType->asPointer())
+          {
+            declaredType = ptrType->getPointedType()->unqualify();
+          }
+          const FunctionType *ft = declaredType->asFunctionType();
           if (ft)
           {
             generateDeclarationOfUsedType(m_rootDictionary, ft, false);
-- 
2.43.0


From 88b494319bcbc74ef1a9ec90b6410a2267692393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 39/47] fix: copy structures with const members returned by
 mocks

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c8c299e..845d639 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -690,7 +690,11 @@ const char templateText[] =
         )
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION)
-        IF_RETURN_VALUE("    easyMock_default_res = easyMock_currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
+        //A structure with const members can't be assigned
+        IF_RETURN_VALUE(
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&easyMock_default_res, (void*)&easyMock_currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ", sizeof(easyMock_default_res));" CARRIAGE_RETURN)
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    easyMock_default_res = easyMock_currentDataCall." FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE ";" CARRIAGE_RETURN)
+        )
         CARRIAGE_RETURN
         "    CSTRING_AUTOCLEAN(easyMock_currentCall) = easyMock_popCurrentCall();" CARRIAGE_RETURN
         "    if(easyMock_ordered)" CARRIAGE_RETURN
@@ -758,7 +762,11 @@ const char templateText[] =
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_PTR_SECTION)
 
-        IF_RETURN_VALUE("    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = to_return;" CARRIAGE_RETURN CARRIAGE_RETURN)
+        IF_RETURN_VALUE(
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) ", (void*)&to_return, sizeof(" MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) "));" CARRIAGE_RETURN)
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE) " = to_return;" CARRIAGE_RETURN)
+          CARRIAGE_RETURN
+        )
         "    MockedFunction_addExpectedCall(&" TEMPLATE_MOCKED_FUN_CLASS ", &easyMock_mockedData);" CARRIAGE_RETURN
         "    easyMock_addCall(MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
-- 
2.43.0


From df03597d767eeea1e04eda55d5e43ac55b790068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 40/47] Revert "fix: parse the types which members hold by
 value even when they are being parsed"

The parser tests expect these members to stay incomplete.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 74238d8..9f7e2da 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -939,15 +939,7 @@ private:
         const clang::QualType &qualType = FD->getType();
         const clang::Type *typePtr = qualType.getTypePtr();
         std::string fName = FD->getNameAsString();
-        //A type being parsed is only known by name, which isn't enough for a member holding such a type by value.
-        structKnownTypeMap fieldKnownType = structKnownType;
-        const clang::Type *elementType = m_context->getBaseElementType(qualType).getTypePtr();
-        if (const auto *fieldRecord = elementType->getAs<clang::RecordType>())
-        {
-          fieldKnownType.erase(getTypedefName(*elementType));
-          fieldKnownType.erase(fieldRecord->getDecl()->getNameAsString() + std::string{" "});
-        }
-        auto fieldType = getEasyMocktype(qualType, fieldKnownType, true);
+        auto fieldType = getEasyMocktype(qualType, structKnownType, true);
 
         if (FD->isBitField())
         {
-- 
2.43.0


From ab4b61399b29dc361f6ba44e4cb102b67f43ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:55 +0000
Subject: [PATCH 41/47] fix: equal C types have equal hashes whether declared
 as naked char or not

---
 src/easyMockGenerate/src/EasyMock_CType.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/easyMockGenerate/src/EasyMock_CType.cpp b/src/easyMockGenerate/src/EasyMock_CType.cpp
index 1d1d807..c64f9f1 100644
--- a/src/easyMockGenerate/src/EasyMock_CType.cpp
+++ b/src/easyMockGenerate/src/EasyMock_CType.cpp
@@ -141,7 +141,6 @@ std::size_t CType::getHash() const noexcept
   }
   std::size_t seed { TypeItf::getHash() };
   boost::hash_combine(seed, static_cast<uint32_t>(m_cType));
-  boost::hash_combine(seed, m_initAsNakedChar);
 
   return seed;
 }
-- 
2.43.0


From f6a59ba3bd0a5e457b50c1654fca643a68c2e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:55 +0000
Subject: [PATCH 42/47] fix: incomplete types of different kinds are not equal

---
 src/easyMockGenerate/include/IncompleteType.h | 5 +++++
 src/easyMockGenerate/src/IncompleteType.cpp   | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/easyMockGenerate/include/IncompleteType.h b/src/easyMockGenerate/include/IncompleteType.h
index 51db28c..5959d5e 100644
--- a/src/easyMockGenerate/include/IncompleteType.h
+++ b/src/easyMockGenerate/include/IncompleteType.h
@@ -80,6 +80,11 @@ public:
   virtual ~IncompleteType();
 
 protected:
+  /*!
+   * \copydoc ::TypeItf::isEqual
+   */
+  bool isEqual(const TypeItf& p_other) const override;
+
 private:
   Type m_type;
   std::size_t m_cachedHash;
diff --git a/src/easyMockGenerate/src/IncompleteType.cpp b/src/easyMockGenerate/src/IncompleteType.cpp
index 272ee46..5df18af 100644
--- a/src/easyMockGenerate/src/IncompleteType.cpp
+++ b/src/easyMockGenerate/src/IncompleteType.cpp
@@ -60,5 +60,12 @@ void IncompleteType::cacheHash() noexcept
   m_cachedHash = IncompleteType::getHash();
 }
 
+bool IncompleteType::isEqual(const TypeItf& p_other) const
+{
+  const IncompleteType* other = p_other.asIncompleteType();
+
+  return other && TypeItf::isEqual(p_other) && this->m_type == other->m_type;
+}
+
 IncompleteType::~IncompleteType()
 {}
-- 
2.43.0


From 2cf1aeed65d068393fad0918226695a7d645f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 43/47] fix: copy C++ parameters and return values with their
 own operations

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 845d639..3a56125 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -632,8 +632,7 @@ const char templateText[] =
               "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> easyMock_default_res { dummyRes_" FUNCTION_NAME FUNCTION_UNIQUE_SUFFIX " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
-              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " easyMock_default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&easyMock_default_res, (void*)&dummyRes_" FUNCTION_NAME FUNCTION_UNIQUE_SUFFIX ", sizeof(easyMock_default_res));" CARRIAGE_RETURN
+              "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " easyMock_default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) " = dummyRes_" FUNCTION_NAME FUNCTION_UNIQUE_SUFFIX ";" CARRIAGE_RETURN
           )
           CARRIAGE_RETURN
         )
@@ -744,7 +743,12 @@ const char templateText[] =
             "    " MOCKED_DATA_MEMBER("instance") " = instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
-        IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ")); // normal member section")
+        IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) "));")
+          //An object which owns something can't be copied byte by byte
+          IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") ";")
+          " // normal member section"
+        )
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") "; // Reference member section")
         CARRIAGE_RETURN
         "    " MOCKED_DATA_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) " = " FUNCTION_PARAM_MATCH_VAR ";" CARRIAGE_RETURN
-- 
2.43.0


From 2737ffc1c744f900473a36d00d54188cd3a5b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 44/47] fix: do not read beyond a va_list parameter

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3a56125..cba3335 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -744,7 +744,8 @@ const char templateText[] =
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REGULAR_MEMBER_SECTION,
-          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) "));")
+          //The size of the parameter itself: a va_list parameter is a pointer. Compilers warn when taking the size of it directly
+          IF_SECTION_EXISTS(C_ONLY_SECTION, "    easyMock_memcpy((void*)&" MOCKED_DATA_MEMBER(PARAMETER_NAME("")) ", (void*)&" PARAMETER_NAME("") ", sizeof(*(1 ? &" PARAMETER_NAME("") " : 0)));")
           //An object which owns something can't be copied byte by byte
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "    " MOCKED_DATA_MEMBER(PARAMETER_NAME("")) " = " PARAMETER_NAME("") ";")
           " // normal member section"
-- 
2.43.0


From 6f11620447d57bea03a840ad56b46e4247f1b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 45/47] fix: find the file of a function whatever #line or its
 path say

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 9f7e2da..64e8950 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -156,9 +156,13 @@ public:
       return nullptr;
     }
     std::string originFileFullInfo = func->getLocation().printToString(*m_SM);
-    size_t posColumn = originFileFullInfo.find_first_of(':');
-    std::string originFile = originFileFullInfo.substr(0,posColumn);
-    boost::filesystem::path originCanon = boost::filesystem::canonical(originFile);
+    //The file itself. The text of the location can't tell: the name can contain a colon, and #line can give any other
+    const clang::FileEntry* originFile = m_SM->getFileEntryForID(m_SM->getFileID(m_SM->getExpansionLoc(func->getLocation())));
+    if(!originFile)
+    {
+      return nullptr;
+    }
+    boost::filesystem::path originCanon = boost::filesystem::canonical(originFile->getName().str());
 
     bool isFromMainFile = m_mainFile == originCanon;
     if(!m_parseIncludedFunctions && !isFromMainFile)
-- 
2.43.0


From c95d14863a9eed4dce1b008d5823ac6b89c6724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 46/47] fix: a macro for a storage class is not part of the
 return type

---
 .../src/LLVMParser/LLVMParser.cpp             | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 64e8950..00ce3d6 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -463,7 +463,7 @@ private:
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
         std::string macroStr = md.getDefinition();
         std::smatch match;
-        if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex))
+        if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex) || isOnlySpecifiers(macroStr))
         {
           removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
         }
@@ -472,8 +472,7 @@ private:
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-    static std::regex removeSpecifierRegex{"\\b(inline|extern|static|virtual|friend|_Noreturn)\\b[[:space:]]*"};
-    declString = std::regex_replace(declString, removeSpecifierRegex, "");
+    removeSpecifiers(declString);
     declString = trim(declString);
     if(!hasTopLevelComma(declString))
     {
@@ -483,6 +482,21 @@ private:
     return rv;
   }
 
+  static void removeSpecifiers(std::string& declString)
+  {
+    static std::regex removeSpecifierRegex{"\\b(inline|extern|static|virtual|friend|_Noreturn)\\b[[:space:]]*"};
+    declString = std::regex_replace(declString, removeSpecifierRegex, "");
+  }
+
+  /*!
+   * \brief Tells whether the given definition of a macro is made of specifiers only, e.g. `#define API extern`.
+   */
+  static bool isOnlySpecifiers(std::string definition)
+  {
+    removeSpecifiers(definition);
+    return trim(definition).empty();
+  }
+
   /*!
    * \brief Tells whether other functions are declared before the one the given string belongs to.
    *
-- 
2.43.0


From fdba620eb1c1a69a6c9c25708c2a419473b6b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 47/47] fix: type of unnamed parameters declared with a macro
 or as va_list

---
 .../src/LLVMParser/LLVMParser.cpp             | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 00ce3d6..e125d20 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -564,7 +564,12 @@ private:
        * See VoidFunUnnamedPtrParam test for reproduction scenario.
        * See VoidFunEnumFactory (unnamed param) test for reproduction scenario.
        */
-      if((beginLoc.isMacroID() && parameterRawType->getCType() != CTYPE_BOOL) || parameterRawType->isImplicit())
+      if(paramName.empty())
+      {
+        //The text ends with the type, not with a name
+        setImplicitDeclareString(param->getOriginalType(), &p);
+      }
+      else if((beginLoc.isMacroID() && parameterRawType->getCType() != CTYPE_BOOL) || parameterRawType->isImplicit())
       {
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
@@ -825,6 +830,8 @@ private:
       auto paramType = getEasyMocktype(paramQualType, structKnownType, false);
 
       Parameter p = Parameter{std::move(paramType), ""};
+      const clang::DecayedType* decayedType = paramQualType->getAs<clang::DecayedType>();
+      setImplicitDeclareString(decayedType ? decayedType->getOriginalType() : paramQualType, &p);
       vectParam.push_back(std::move(p));
     }
     auto f = std::make_shared<FunctionType>(std::move(rv), std::move(vectParam));
@@ -1149,6 +1156,17 @@ private:
     }
   }
 
+  /*!
+   * \brief Declares an unnamed parameter of a type which the compiler provides, e.g. va_list, as it has been written.
+   */
+  void setImplicitDeclareString(const clang::QualType &clangQualType, Declarator* decl)
+  {
+    if(decl->getType()->getRawType()->isImplicit())
+    {
+      setDeclaratorDeclareString(clangQualType, decl, clangQualType.getAsString());
+    }
+  }
+
   std::string getFunctionName(const clang::FunctionDecl *func)
   {
     return func->getNameInfo().getName().getAsString();
-- 
2.43.0

