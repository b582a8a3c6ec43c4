From df64eb6a60c1846d128d2d7b7dec83d05be99adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 01/53] fix: make the POSIX heap, virtual memory and file-read
 paths compile and return correct results

---
 base/dependencies/filesystem.cpp |  1 -
 base/dependencies/memory.cpp     | 18 +++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..1cad965 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -200,7 +200,6 @@ GEN_FILE_SEEK_PROC( _posix_file_seek )
 internal
 GEN_FILE_READ_AT_PROC( _posix_file_read )
 {
-	unused( stop_at_newline );
 	ssize res = pread( fd.i, buffer, size, offset );
 	if ( res < 0 )
 		return false;
diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..47307c8 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -145,7 +145,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				ptr = aligned_alloc( alignment, ( size + alignment - 1 ) & ~( alignment - 1 ) );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -154,7 +154,11 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 		case EAllocation_FREE :
 			{
+			#if GEN_COMPILER_CPP
+				::free( old_memory );
+			#else
 				free( old_memory );
+			#endif
 			}
 			break;
 
@@ -169,7 +173,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 			{
 				posix_memalign( &ptr, alignment, size );
 
-				if ( flags & GEN_ALLOCATOR_FLAG_CLEAR_TO_ZERO )
+				if ( flags & ALLOCATOR_FLAG_CLEAR_TO_ZERO )
 				{
 					zero_size( ptr, size );
 				}
@@ -178,7 +182,11 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 		case EAllocation_FREE :
 			{
+			#if GEN_COMPILER_CPP
+				::free( old_memory );
+			#else
 				free( old_memory );
+			#endif
 			}
 			break;
 
@@ -312,16 +320,16 @@ VirtualMemory vm_trim( VirtualMemory vm, ssize lead_size, ssize size )
 	trail_size = vm.size - lead_size - size;
 
 	if ( lead_size != 0 )
-		vm_free( vm_from_memory(( vm.data, lead_size ) );
+		vm_free( vm_from_memory( vm.data, lead_size ) );
 	if ( trail_size != 0 )
-		vm_free( vm_from_memory( ptr, trail_size ) );
+		vm_free( vm_from_memory( pointer_add( ptr, size ), trail_size ) );
 	return vm_from_memory( ptr, size );
 }
 
 b32 vm_purge( VirtualMemory vm )
 {
 	int err = madvise( vm.data, vm.size, MADV_DONTNEED );
-	return err != 0;
+	return err == 0;
 }
 
 ssize virtual_memory_page_size( ssize* alignment_out )
-- 
2.43.0


From 7fd037ce3dcae0c7914bae7d769ca20ee0946807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 02/53] fix: access_spec_to_str returns the keyword of every
 access specifier

---
 base/components/types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..f20e2ce 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -48,10 +48,10 @@ Str access_spec_to_str( AccessSpec type )
 {
 	local_persist
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
-		{ "",        sizeof( "" )        - 1 },
-		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
-		{ "public",  sizeof("public")    - 1 },
+		{ "",          sizeof( "" )        - 1 },
+		{ "private",   sizeof("private")   - 1 },
+		{ "protected", sizeof("protected") - 1 },
+		{ "public",    sizeof("public")    - 1 },
 	};
 
 	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
-- 
2.43.0


From 14e7a46b0568ba5020999eb110fcbc404530734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 03/53] fix: serialization of
 class/struct/enum/operator/destructor/export/typedef/variable ASTs drops or
 duplicates parts of the declaration

---
 base/components/code_serialization.cpp | 193 ++++++++++++++-----------
 base/components/inlines.hpp            |  20 ++-
 2 files changed, 128 insertions(+), 85 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9ec168b..f96568b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -38,13 +38,13 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	GEN_ASSERT(result != nullptr);
 	strbuilder_append_fmt( result, "export\n{\n" );
 
-	Code curr = cast(Code, body);
+	Code curr = body->Front;
 	s32  left = body->NumEntries;
 	while ( left-- )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 
 	strbuilder_append_fmt( result, "};\n" );
@@ -70,7 +70,16 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
+
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
@@ -96,7 +105,16 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
+
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
@@ -158,7 +176,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", self->Name, access_level, typename_to_strbuilder(self->ParentType) );
+		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
@@ -171,15 +189,15 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n") );
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
@@ -199,7 +217,7 @@ void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
 		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 		else
 			strbuilder_append_str( result, txt(";\n") );
 	}
@@ -256,6 +274,10 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	// Within a class or struct, the destructor's immediate parent is the body.
+	Code class_struct_parent = self->Parent && self->Parent->Parent ? self->Parent->Parent : self->Parent;
+	Str  class_name          = class_struct_parent ? class_struct_parent->Name : txt("");
+
 	if ( self->Name.Len )
 	{
 		strbuilder_append_fmt( result, "%S()", self->Name );
@@ -263,12 +285,12 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 	else if ( self->Specs )
 	{
 		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S()", self->Parent->Name );
+			strbuilder_append_fmt( result, "virtual ~%S()", class_name );
 		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+			strbuilder_append_fmt( result, "~%S()", class_name );
 	}
 	else
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+		strbuilder_append_fmt( result, "~%S()", class_name );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -277,25 +299,27 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Specs )
-	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S();\n", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+	// Within a class or struct, the destructor's immediate parent is the body.
+	Code class_struct_parent = self->Parent && self->Parent->Parent ? self->Parent->Parent : self->Parent;
+	Str  class_name          = class_struct_parent ? class_struct_parent->Name : txt("");
 
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0;") );
-		else if (self->Body)
-			strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
-	}
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
+		strbuilder_append_str( result, txt("virtual ") );
+
+	if ( self->Name.Len )
+		strbuilder_append_fmt( result, "%S()", self->Name );
 	else
-		strbuilder_append_fmt( result, "~%S();", self->Parent->Name );
+		strbuilder_append_fmt( result, "~%S()", class_name );
+
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Pure ) )
+		strbuilder_append_str( result, txt(" = 0") );
+	else if ( self->Body )
+		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
-		strbuilder_append_str( result, txt("\n"));
+		strbuilder_append_str( result, txt(";\n"));
 }
 
 StrBuilder enum_to_strbuilder(CodeEnum self)
@@ -352,7 +376,12 @@ void enum_to_strbuilder_def(CodeEnum self, StrBuilder* result )
 	else strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
@@ -362,18 +391,17 @@ void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
+	strbuilder_append_str( result, txt("enum ") );
+
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
 	if ( self->UnderlyingType )
-		strbuilder_append_fmt( result, "enum %S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
 	else if (self->UnderlyingTypeMacro)
-	{
-		log_fmt("IDENTIFIED A UNDERLYING ENUM MACRO");
-		strbuilder_append_fmt( result, "enum %S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
-	}
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
 	else
-		strbuilder_append_fmt( result, "enum %S", self->Name );
+		strbuilder_append_str( result, self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
@@ -391,7 +419,7 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes || self->UnderlyingType )
+	if ( self->Attributes || self->UnderlyingType || self->UnderlyingTypeMacro )
 	{
 		strbuilder_append_str( result, txt("enum class ") );
 
@@ -404,6 +432,10 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 		{
 			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
 		}
+		else if ( self->UnderlyingTypeMacro )
+		{
+			strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro), body_to_strbuilder(self->Body) );
+		}
 		else
 		{
 			strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
@@ -411,11 +443,16 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	}
 	else
 	{
-		strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, "enum class %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 	}
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
@@ -430,7 +467,12 @@ void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
+	else
+		strbuilder_append_str( result, self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
@@ -462,7 +504,7 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export") );
+		strbuilder_append_str( result, txt("export ") );
 
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, " %SB ", attributes_to_strbuilder(self->Attributes) );
@@ -531,7 +573,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( ! spec_is_trailing( * spec ) || ! ( * spec != Spec_Pure) )
+			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
@@ -568,11 +610,6 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
 			}
 		}
-
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0") );
-		else if ( specifiers_has(self->Specs, Spec_Delete ) )
-			strbuilder_append_str( result, txt(" = delete") );
 	}
 
 	// This is bodged in for now SOLEY for Unreal's PURE_VIRTUAL functional macro (I kept it open ended for other jank)
@@ -580,7 +617,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->SuffixSpecs) );
 
 	if (self->Body)
-		strbuilder_append_fmt( result, " = %SB;", body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(cast(Code, self->Body)) );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
@@ -629,9 +666,6 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -755,7 +789,7 @@ void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -794,18 +828,21 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
-		strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
+		if ( self->Name.Ptr && self->Name.Len )
+			strbuilder_append_fmt( result, "%S operator %SB()", self->Name, typename_to_strbuilder(self->ValueType) );
+		else
+			strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
 
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -816,10 +853,15 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 		return;
 	}
 
+	if ( self->Name.Ptr && self->Name.Len )
+		strbuilder_append_fmt( result, "%S operator %SB()", self->Name, typename_to_strbuilder(self->ValueType) );
+	else
+		strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
+
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "operator %SB();  %SB", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
-		strbuilder_append_fmt( result, "operator %SB();\n", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_str( result, txt(";\n") );
 }
 
 void params_to_strbuilder_ref( CodeParams self, StrBuilder* result )
@@ -969,15 +1011,15 @@ void struct_to_strbuilder_def( CodeStruct self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void struct_to_strbuilder_fwd( CodeStruct self, StrBuilder* result )
@@ -1031,19 +1073,17 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 
 	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
+		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
 
 		Code next_arr_expr = self->UnderlyingType->ArrExpr->Next;
 		while ( next_arr_expr )
 		{
-			strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(next_arr_expr) );
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
 			next_arr_expr = next_arr_expr->Next;
 		}
 	}
-	else
-	{
-		strbuilder_append_str( result, txt(";") );
-	}
+
+	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content);
@@ -1243,7 +1283,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1252,9 +1292,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		return;
 	}
 
@@ -1289,7 +1326,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1297,9 +1334,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		if ( self->InlineCmt )
 			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
 		else
@@ -1329,7 +1363,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->Value )
 	{
 		if ( self->VarParenthesizedInit )
-			strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+			strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 		else
 			strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 	}
@@ -1337,9 +1371,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->NextVar )
 		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder( self->NextVar) );
 
-	if ( self->VarParenthesizedInit )
-		strbuilder_append_str( result, txt(" )"));
-
 	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..0724b2a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -110,15 +110,27 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 	GEN_ASSERT(result);
 	strbuilder_append_fmt( result, "friend %SB", code_to_strbuilder(self->Declaration) );
 
-	if ( self->Declaration->Type != CT_Function && self->Declaration->Type != CT_Operator && (* result)[ strbuilder_length(* result) - 1 ] != ';' )
+	switch ( self->Declaration->Type )
 	{
-		strbuilder_append_str( result, txt(";") );
+		// These already end themselves (with a body or an end-statement, and their own inline comment)
+		case CT_Class:
+		case CT_Class_Fwd:
+		case CT_Function:
+		case CT_Function_Fwd:
+		case CT_Operator:
+		case CT_Operator_Fwd:
+		case CT_Struct:
+		case CT_Struct_Fwd:
+			return;
+
+		default:
+			break;
 	}
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
-		strbuilder_append_str( result, txt("\n"));
+		strbuilder_append_str( result, txt(";\n"));
 }
 
 inline
-- 
2.43.0


From 9ffa8a39701aad51fddfeeefc4b4090246cc2e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 04/53] fix: parser and lexer drop parts of strings, linkage
 names, friend and constructor/destructor/delete definitions

---
 base/components/lexer.cpp  |  1 +
 base/components/parser.cpp | 44 ++++++++++++++++++++------------------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f501f70..eb55f39 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -912,6 +912,7 @@ TokArray lex( Str content )
 					if ( (* ctx->scanner) == '"' )
 					{
 						move_forward();
+						c.token.Text.Len++;
 						break;
 					}
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..d1a51b3 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -724,12 +724,7 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	}
 	// <ModuleFlags> <class/struct> <Attributes> <Name> <final>
 
-	local_persist
-	char interface_arr_mem[ kilobytes(4) ] = {0};
-	Array(CodeTypename) interfaces; {
-		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
-		interfaces  = array_init_reserve(CodeTypename, arena_allocator_info(& arena), 4 );
-	}
+	Array(CodeTypename) interfaces = array_init_reserve(CodeTypename, _ctx->Allocator_Temp, 4 );
 
 	// TODO(Ed) : Make an AST_DerivedType, we'll store any arbitary derived type into there as a linear linked list of them.
 	if ( check( Tok_Assign_Classifer ) )
@@ -1092,7 +1087,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( nexttok.Type == Tok_Paren_Open && name.Text.Len && currtok.Type == Tok_Identifier )
 				{
-					if ( c_str_compare_len( name.Text.Ptr, currtok.Text.Ptr, name.Text.Len ) == 0 )
+					if ( str_are_equal( name.Text, currtok.Text ) )
 					{
 						member = cast(Code, parser_parse_constructor( specifiers ));
 						// <Attributes> <Specifiers> <Name>()
@@ -1463,7 +1458,7 @@ CodeFn parse_function_after_name(
 			specifiers       = (CodeSpecifiers) make_code();
 			specifiers->Type = CT_Specifiers;
 		}
-		if ( str_are_equal(nexttok.Text, txt("delete")))
+		if ( str_are_equal(currtok.Text, txt("delete")))
 		{
 			specifiers_append(specifiers, Spec_Delete);
 			eat(currtok.Type);	
@@ -2018,7 +2013,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		tok_left = tokens.Arr[idx];
 	}
 
-	bool is_same = c_str_compare_len( tok_right.Text.Ptr, tok_left.Text.Ptr, tok_right.Text.Len ) == 0;
+	bool is_same = str_are_equal( tok_right.Text, tok_left.Text );
 	if (tok_left.Type == Tok_Identifier && is_same)
 	{
 		// We have found the pattern we desired
@@ -3546,8 +3541,10 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	else if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
 	{
 		body = cast(CodeBody, parse_assignment_expression());
+		// <Name> ( <Parameters> ) = <default or delete>
 	}
-	else
+
+	if ( ! body || body->Type == CT_Untyped )
 	{
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
@@ -3570,11 +3567,11 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	if ( initializer_list )
 		result->InitializerList = initializer_list;
 
-	if ( body && body->Type == CT_Function_Body )
-	{
+	if ( body )
 		result->Body = cast(Code, body);
+
+	if ( body && body->Type != CT_Untyped )
 		result->Type = CT_Constructor;
-	}
 	else
 		result->Type = CT_Constructor_Fwd;
 
@@ -3727,12 +3724,15 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 			eat( Tok_Number );
 			// <Virtual Specifier> ~<Name>() = 0
 
-			specifiers_append(specifiers, Spec_Pure );
+			if ( specifiers )
+				specifiers_append(specifiers, Spec_Pure );
+			else
+				specifiers = def_specifier( Spec_Pure );
 		}
-		else if ( left && c_str_compare_len( upcoming.Text.Ptr, "default", sizeof("default") - 1 ) == 0) 
+		else if ( left && ( str_are_equal( upcoming.Text, txt("default") ) || str_are_equal( upcoming.Text, txt("delete") ) ) )
 		{
 			body = cast(CodeBody, parse_assignment_expression());
-			// <Virtual Specifier> ~<
+			// <Virtual Specifier> ~<Name>() = <default or delete>
 		}
 		else
 		{
@@ -3770,10 +3770,11 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	if ( specifiers )
 		result->Specs = specifiers;
 
-	if ( body && body->Type == CT_Function_Body ) {
+	if ( body )
 		result->Body = cast(Code, body);
+
+	if ( body && body->Type != CT_Untyped )
 		result->Type = CT_Destructor;
-	}
 	else
 		result->Type = CT_Destructor_Fwd;
 
@@ -4058,8 +4059,9 @@ CodeExtern parser_parse_extern_link()
 	eat( Tok_String );
 	// extern "<Name>"
 
+	// Strip the surrounding quotes
 	name.Text.Ptr += 1;
-	name.Text.Len -= 1;
+	name.Text.Len -= 2;
 
 	CodeExtern
 	result       = (CodeExtern) make_code();
@@ -4071,7 +4073,7 @@ CodeExtern parser_parse_extern_link()
 	{
 		log_failure( "Failed to parse body\n%s", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
-		return result;
+		return InvalidCode;
 	}
 	// extern "<Name>" { <Body> }
 
@@ -4165,7 +4167,7 @@ CodeFriend parser_parse_friend()
 	}
 
 	CodeComment inline_cmt = NullCode;
-	if ( function && function->Type == CT_Function_Fwd )
+	if ( ! function && ! op )
 	{
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
-- 
2.43.0


From d5ec442c26f64fabd237b4d1f0fdd19da6a628e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 05/53] fix: Array insertion/reserve and HashTable
 remove/map/rehash_fast did not compile or wrote the wrong memory

---
 base/dependencies/containers.hpp | 71 ++++++++++++++++----------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..d2b97bb 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -68,7 +68,7 @@ struct Array
 #pragma region Member Mapping
 	forceinline static Array  init(AllocatorInfo allocator)                         { return array_init<Type>(allocator); }
 	forceinline static Array  init_reserve(AllocatorInfo allocator, ssize capacity) { return array_init_reserve<Type>(allocator, capacity); }
-	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula<Type>(value); }
+	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula(value); }
 
 	forceinline bool         append(Array other)                               { return array_append_array<Type>(this, other); }
 	forceinline bool         append(Type value)                                { return array_append<Type>(this, value); }
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy((Type*)(* array) + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
@@ -203,8 +203,8 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	ArrayHeader* header = array_get_header(* array);
 
 	ssize slot = idx;
-	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
+	if (slot > (ssize)(header->Num))
+		slot = header->Num;
 
 	if (slot < 0)
 		slot = 0;
@@ -220,6 +220,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	* target = item;
 	header->Num++;
 
 	return true;
@@ -230,23 +231,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = (Type*)(* array) + idx + item_num;
+	Type* src    = (Type*)(* array) + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
@@ -355,10 +356,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
@@ -496,18 +497,18 @@ struct HashTable
 	forceinline static HashTable init(AllocatorInfo allocator)                    { return	hashtable_init<Type>(allocator); }
 	forceinline static HashTable init_reserve(AllocatorInfo allocator, usize num) { return	hashtable_init_reserve<Type>(allocator, num); }
 
-	forceinline void  clear()                           {        clear<Type>(*this); }
-	forceinline void  destroy()                         {        destroy<Type>(*this); }
-	forceinline Type* get(u64 key)                      { return get<Type>(*this, key); }
-	forceinline void  grow()                            {        grow<Type>(*this); }
-	forceinline void  rehash(ssize new_num)             {        rehash<Type>(*this, new_num); }
-	forceinline void  rehash_fast()                     {        rehash_fast<Type>(*this); }
-	forceinline void  remove(u64 key)                   {        remove<Type>(*this, key); }
-	forceinline void  remove_entry(ssize idx)           {        remove_entry<Type>(*this, idx); }
-	forceinline void  set(u64 key, Type value)          {        set<Type>(*this, key, value); }
-	forceinline ssize slot(u64 key)                     { return slot<Type>(*this, key); }
-	forceinline void  map(void (*proc)(u64, Type))      {        map<Type>(*this, proc); }
-	forceinline void  map_mut(void (*proc)(u64, Type*)) {        map_mut<Type>(*this, proc); }
+	forceinline void  clear()                           {        hashtable_clear<Type>(*this); }
+	forceinline void  destroy()                         {        hashtable_destroy<Type>(this); }
+	forceinline Type* get(u64 key)                      { return hashtable_get<Type>(*this, key); }
+	forceinline void  grow()                            {        hashtable_grow<Type>(this); }
+	forceinline void  rehash(ssize new_num)             {        hashtable_rehash<Type>(this, new_num); }
+	forceinline void  rehash_fast()                     {        hashtable_rehash_fast<Type>(*this); }
+	forceinline void  remove(u64 key)                   {        hashtable_remove<Type>(*this, key); }
+	forceinline void  remove_entry(ssize idx)           {        hashtable_remove_entry<Type>(*this, idx); }
+	forceinline void  set(u64 key, Type value)          {        hashtable_set<Type>(this, key, value); }
+	forceinline ssize slot(u64 key)                     { return hashtable_slot<Type>(*this, key); }
+	forceinline void  map(void (*proc)(u64, Type))      {        hashtable_map<Type>(*this, proc); }
+	forceinline void  map_mut(void (*proc)(u64, Type*)) {        hashtable_map_mut<Type>(*this, proc); }
 #pragma endregion Member Mapping
 #endif
 
@@ -577,7 +578,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -588,7 +589,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -639,19 +640,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -664,11 +665,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast(table);
 	}
 }
 
@@ -676,7 +677,7 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at(table.Entries, idx);
 }
 
 template<typename Type> inline
@@ -717,7 +718,7 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
+	for (ssize idx = 0; idx < ssize(array_num(table.Hashes)); ++idx)
 		if (table.Hashes[idx] == key)
 			return idx;
 
-- 
2.43.0


From 11877231d5f31e564b86d73357702968656f5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 06/53] fix: Builder pad_lines count and long print_fmt text,
 scan_file reading past a trailing directive

---
 base/auxiliary/builder.cpp | 25 +++++++++++++++++++++++--
 base/auxiliary/scanner.cpp |  6 ++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 391f520..0e4b3c7 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -25,7 +25,8 @@ Builder builder_open( char const* path )
 
 void builder_pad_lines( Builder* builder, s32 num )
 {
-	strbuilder_append_str( & builder->Buffer, txt("\n") );
+	for ( s32 idx = 0; idx < num; ++ idx )
+		strbuilder_append_str( & builder->Buffer, txt("\n") );
 }
 
 void builder_print( Builder* builder, Code code )
@@ -41,9 +42,29 @@ void builder_print_fmt_va( Builder* builder, char const* fmt, va_list va )
 	ssize   res;
 	char buf[ GEN_PRINTF_MAXLEN ] = { 0 };
 
+	va_list va_large;
+	va_copy( va_large, va );
 	res = c_str_fmt_va( buf, count_of( buf ) - 1, fmt, va ) - 1;
+	if ( res >= 0 )
+		strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)buf, res);
 
-	strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)buf, res);
+	// The text does not fit the local buffer.
+	for ( ssize size = GEN_PRINTF_MAXLEN * 4; res < 0 && size <= gigabytes(1); size *= 4 )
+	{
+		char* large = rcast( char*, alloc( heap(), size ) );
+		if ( large == nullptr )
+			break;
+
+		va_list va_try;
+		va_copy( va_try, va_large );
+		res = c_str_fmt_va( large, size, fmt, va_try ) - 1;
+		va_end( va_try );
+
+		if ( res >= 0 )
+			strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)large, res);
+		allocator_free( heap(), large );
+	}
+	va_end( va_large );
 }
 
 void builder_write(Builder* builder)
diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index de0fd7b..37a37a7 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -69,7 +69,8 @@ Code scan_file( char const* path )
 					// Skip to end of line
 					while ( left && current != '\r' && current != '\n' )
 						move_fwd();
-					move_fwd();
+					if ( left )
+						move_fwd();
 
 					if ( left && current == '\n' )
 						move_fwd();
@@ -85,7 +86,8 @@ Code scan_file( char const* path )
 					// Skip to end of line
 					while ( left && current != '\r' && current != '\n' )
 						move_fwd();
-					move_fwd();
+					if ( left )
+						move_fwd();
 
 					if ( left && current == '\n' )
 						move_fwd();
-- 
2.43.0


From 5dfb3c755163171d5984a7ec119e5f98c87ae843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 07/53] fix: c_str_compare_len orders by character, not by
 address

---
 base/dependencies/string_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/string_ops.hpp b/base/dependencies/string_ops.hpp
index 78fa555..dfb6fb4 100644
--- a/base/dependencies/string_ops.hpp
+++ b/base/dependencies/string_ops.hpp
@@ -137,7 +137,7 @@ s32 c_str_compare_len( const char* s1, const char* s2, ssize len )
 	for ( ; len > 0; s1++, s2++, len-- )
 	{
 		if ( *s1 != *s2 )
-			return ( ( s1 < s2 ) ? -1 : +1 );
+			return ( ( *( u8* )s1 < *( u8* )s2 ) ? -1 : +1 );
 		else if ( *s1 == '\0' )
 			return 0;
 	}
-- 
2.43.0


From ac64f9ecbf1911e2ed0ee8e8ab8be3dea337287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 08/53] fix: text longer than the print buffer was lost or
 overran it, StrBuilder starts_with/contains/equality/clear

---
 base/dependencies/printing.cpp | 57 +++++++++++++++++++++++++---------
 base/dependencies/strings.hpp  | 57 ++++++++++++++++++++++++++++------
 2 files changed, 90 insertions(+), 24 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 684f0ea..2b18a5f 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -68,9 +68,13 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		if ( info->precision > 0 )
 			len = info->precision < len ? info->precision : len;
 		if ( res + len > max_len )
-			return res;
-		res  += c_str_copy_nulpad( text, str, len );
-		text += res;
+		{
+			c_str_copy_nulpad( text, str, max_len - res );
+			return max_len;
+		}
+		res       += c_str_copy_nulpad( text, str, len );
+		text      += res;
+		remaining -= res;
 
 		if ( info->width > res )
 		{
@@ -92,16 +96,22 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		}
 
 		if ( res + len > max_len )
-			return res;
+		{
+			c_str_copy_nulpad( text, str, max_len - res );
+			return max_len;
+		}
 		res += c_str_copy_nulpad( text, str, len );
 	}
 
 	if ( info )
 	{
+		// NOTE: The text is not terminated yet, only what was printed may be touched.
 		if ( info->flags & GEN_FMT_UPPER )
-			c_str_to_upper( begin );
+			for ( char* end = begin + res; begin < end; ++begin )
+				* begin = char_to_upper( * begin );
 		else if ( info->flags & GEN_FMT_LOWER )
-			c_str_to_lower( begin );
+			for ( char* end = begin + res; begin < end; ++begin )
+				* begin = char_to_lower( * begin );
 	}
 
 	return res;
@@ -118,6 +128,8 @@ internal ssize _print_repeated_char( char* text, ssize max_len, _format_info* in
 {
 	ssize  res = 0;
 	s32 rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
+	if ( rem > max_len )
+		rem = scast( s32, max_len );
 	res     = rem;
 	while ( rem-- > 0 )
 		*text++ = arg;
@@ -190,7 +202,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 					remaining = min( remaining, 1 );
 				else
 					remaining -= len;
-				arg  -= scast( f64, value / mult);
+				arg  -= scast( f64, value ) / mult;
 				mult *= 10;
 			}
 		}
@@ -242,6 +254,7 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 {
 	char const* text_begin = text;
 	ssize          remaining  = max_len, res;
+	b32            truncated  = false;
 
 	while ( *fmt )
 	{
@@ -249,8 +262,17 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 		ssize        len  = 0;
 		info.precision    = -1;
 
-		while ( *fmt && *fmt != '%' && remaining )
-			*text++ = *fmt++;
+		while ( *fmt && *fmt != '%' )
+		{
+			// NOTE: The last character is kept for the terminator.
+			if ( remaining > 1 )
+				*text++ = *fmt, remaining--;
+			else
+				truncated = true;
+			fmt++;
+		}
+		if ( ! *fmt )
+			break;
 
 		if ( *fmt == '%' )
 		{
@@ -520,16 +542,21 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			}
 		}
 
-		text += len;
 		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		{
+			truncated = true;
+			len       = remaining > 0 ? remaining - 1 : 0;
+		}
+		text      += len;
+		remaining -= len;
 	}
 
+	if ( max_len <= 0 )
+		return -1;
+
 	*text++ = '\0';
 	res     = ( text - text_begin );
-	return ( res >= max_len || res < 0 ) ? -1 : res;
+	return ( truncated || res >= max_len || res < 0 ) ? -1 : res;
 }
 
 char* c_str_fmt_buf_va( char const* fmt, va_list va )
@@ -553,7 +580,7 @@ ssize c_str_fmt_file_va( FileInfo* f, char const* fmt, va_list va )
 {
 	local_persist thread_local char buf[ GEN_PRINTF_MAXLEN ];
 	ssize                              len = c_str_fmt_va( buf, size_of( buf ), fmt, va );
-	b32                             res = file_write( f, buf, len - 1 );    // NOTE: prevent extra whitespace
+	b32                             res = file_write( f, buf, len < 0 ? c_str_len( buf ) : len - 1 );    // NOTE: prevent extra whitespace
 	return res ? len : -1;
 }
 
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..9e9722d 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -209,7 +209,7 @@ struct StrBuilder
 		va_start(va, fmt);
 		ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		return strbuilder_make_length(allocator, buf, res < 0 ? c_str_len(buf) : res);
 	}
 
 	static
@@ -220,7 +220,7 @@ struct StrBuilder
 		va_start(va, fmt);
 		ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		return strbuilder_make_length(allocator, buf, res < 0 ? c_str_len(buf) : res);
 	}
 
 	forceinline bool              make_space_for(char const* str, ssize add_len) { return strbuilder_make_space_for(this, str, add_len); }
@@ -259,7 +259,26 @@ struct StrBuilder
 		res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
 		va_end(va);
 
-		return strbuilder_append_c_str_len(this, buf, res);
+		if (res >= 0)
+			return strbuilder_append_c_str_len(this, buf, res);
+
+		// The text does not fit the local buffer.
+		for (ssize size = GEN_PRINTF_MAXLEN * 4; size <= gigabytes(1); size *= 4)
+		{
+			char* large = rcast(char*, alloc(heap(), size));
+			if (large == nullptr)
+				return false;
+
+			va_start(va, fmt);
+			res = c_str_fmt_va(large, size, fmt, va) - 1;
+			va_end(va);
+
+			bool appended = res >= 0 && strbuilder_append_c_str_len(this, large, res);
+			allocator_free(heap(), large);
+			if (res >= 0)
+				return appended;
+		}
+		return false;
 	}
 #pragma endregion Member Mapping
 #endif
@@ -313,7 +332,7 @@ StrBuilder strbuilder_fmt(AllocatorInfo allocator, char* buf, ssize buf_size, ch
 	ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	return strbuilder_make_length(allocator, buf, res < 0 ? c_str_len(buf) : res);
 }
 
 inline
@@ -327,7 +346,7 @@ StrBuilder strbuilder_fmt_buf(AllocatorInfo allocator, char const* fmt, ...)
 	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) -1;
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	return strbuilder_make_length(allocator, buf, res < 0 ? c_str_len(buf) : res);
 }
 
 inline
@@ -381,11 +400,30 @@ bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 	res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
 	va_end(va);
 
-	return strbuilder_append_c_str_len(str, (char const*)buf, res);
+	if (res >= 0)
+		return strbuilder_append_c_str_len(str, (char const*)buf, res);
+
+	// The text does not fit the local buffer.
+	for (ssize size = GEN_PRINTF_MAXLEN * 4; size <= gigabytes(1); size *= 4)
+	{
+		char* large = rcast(char*, alloc(heap(), size));
+		if (large == nullptr)
+			return false;
+
+		va_start(va, fmt);
+		res = c_str_fmt_va(large, size, fmt, va) - 1;
+		va_end(va);
+
+		bool appended = res >= 0 && strbuilder_append_c_str_len(str, (char const*)large, res);
+		allocator_free(heap(), large);
+		if (res >= 0)
+			return appended;
+	}
+	return false;
 }
 
 inline
-bool strbuilder_are_equal_string(StrBuilder const lhs, StrBuilder const rhs)
+bool strbuilder_are_equal(StrBuilder const lhs, StrBuilder const rhs)
 {
 	if (strbuilder_length(lhs) != strbuilder_length(rhs))
 		return false;
@@ -422,7 +460,7 @@ char* strbuilder_back(StrBuilder str) {
 }
 
 inline
-bool strbuilder_contains_StrC(StrBuilder const str, Str substring)
+bool strbuilder_contains_str(StrBuilder const str, Str substring)
 {
 	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
 
@@ -470,6 +508,7 @@ ssize strbuilder_capacity(StrBuilder const str) {
 forceinline
 void strbuilder_clear(StrBuilder str) {
 	strbuilder_get_header(str)->Length = 0;
+	* (char*)str = '\0';
 }
 
 forceinline
@@ -513,7 +552,7 @@ b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
 	if (strbuilder_length(substring) > strbuilder_length(str))
 		return false;
 
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring) - 1) == 0;
+	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
 	return result;
 }
 
-- 
2.43.0


From 882929ad0358ff6f2839709f17b414e46670cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 09/53] fix: arena alignment padding was not accounted for,
 arena resize used the backing allocator, pool_clear kept its usage

---
 base/dependencies/memory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 47307c8..64ce2ee 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -356,7 +356,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_ALLOC :
 		{
 			void* end        = pointer_add( arena->PhysicalStart, arena->TotalUsed );
-			ssize total_size = align_forward_s64( size, alignment );
+			ssize total_size = align_forward_s64( size, alignment ) + arena_alignment_of( arena, alignment );
 
 			// NOTE: Out of memory
 			if ( arena->TotalUsed + total_size > (ssize) arena->TotalSize )
@@ -386,7 +386,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_RESIZE :
 			{
 				// TODO : Check if ptr is on top of stack and just extend
-				AllocatorInfo a = arena->Backing;
+				AllocatorInfo a = arena_allocator_info( arena );
 				ptr             = default_resize_align( a, old_memory, old_size, size, alignment );
 			}
 			break;
@@ -524,7 +524,8 @@ void pool_clear(Pool* pool)
 	end  =  ( uptr* ) curr;
 	*end =  ( uptr )  NULL;
 
-	pool->FreeList = pool->PhysicalStart;
+	pool->FreeList  = pool->PhysicalStart;
+	pool->TotalSize = 0;
 }
 
 #pragma endregion Memory
-- 
2.43.0


From cd1e1e9e9ac4c412c5429efbe267a4595dcd9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 10/53] fix: context reset/deinit left stale state, oversized
 requests overran fallback buckets and string arenas, crc collisions aliased
 strings and macros

---
 base/components/interface.cpp | 98 ++++++++++++++++++++++++-----------
 base/components/parser.cpp    |  4 +-
 2 files changed, 70 insertions(+), 32 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..b0ce45b 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -17,9 +17,13 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 	{
 		case EAllocation_ALLOC:
 		{
-			if ( ( last->TotalUsed + size ) > last->TotalSize )
+			if ( arena_size_remaining( last, alignment ) < align_forward_s64( size, alignment ) )
 			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+				// A request larger than a bucket gets one of its own.
+				ssize bucket_size = _ctx->InitSize_Fallback_Allocator_Bucket_Size;
+				if ( bucket_size < align_forward_s64( size, alignment ) + alignment )
+					bucket_size = align_forward_s64( size, alignment ) + alignment;
+				Arena bucket = arena_init_from_allocator( heap(), bucket_size );
 
 				if ( bucket.PhysicalStart == nullptr )
 					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
@@ -44,9 +48,13 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 		break;
 		case EAllocation_RESIZE:
 		{
-			if ( last->TotalUsed + size > last->TotalSize )
+			if ( arena_size_remaining( last, alignment ) < align_forward_s64( size, alignment ) )
 			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+				// A request larger than a bucket gets one of its own.
+				ssize bucket_size = _ctx->InitSize_Fallback_Allocator_Bucket_Size;
+				if ( bucket_size < align_forward_s64( size, alignment ) + alignment )
+					bucket_size = align_forward_s64( size, alignment ) + alignment;
+				Arena bucket = arena_init_from_allocator( heap(), bucket_size );
 
 				if ( bucket.PhysicalStart == nullptr )
 					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
@@ -57,11 +65,11 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 				last = array_back( _ctx->Fallback_AllocatorBuckets);
 			}
 
-			void* result = alloc_align( last->Backing, size, alignment );
+			void* result = alloc_align( arena_allocator_info(last), size, alignment );
 
 			if ( result != nullptr && old_memory != nullptr )
 			{
-				mem_copy( result, old_memory, old_size );
+				mem_copy( result, old_memory, old_size < size ? old_size : size );
 			}
 
 			return result;
@@ -74,6 +82,13 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 internal
 void define_constants()
 {
+	if (enum_underlying_macro.Name.Len == 0) {
+		enum_underlying_macro.Name  = txt("enum_underlying");
+		enum_underlying_macro.Type  = MT_Expression;
+		enum_underlying_macro.Flags = MF_Functional;
+	}
+	register_macro(enum_underlying_macro);
+
 	// We only initalize these if there is no base context.
 	if ( context_counter > 0 )
 		return;
@@ -205,13 +220,6 @@ void define_constants()
 
 	spec_local_persist = def_specifiers( 1, Spec_Local_Persist );
 	code_set_global(cast(Code, spec_local_persist));
-
-	if (enum_underlying_macro.Name.Len == 0) {
-		enum_underlying_macro.Name  = txt("enum_underlying");
-		enum_underlying_macro.Type  = MT_Expression;
-		enum_underlying_macro.Flags = MF_Functional;
-	}
-	register_macro(enum_underlying_macro);
 }
 
 void init(Context* ctx)
@@ -238,6 +246,9 @@ void init(Context* ctx)
 		ctx->Allocator_Temp = fallback_allocator;
 		using_fallback_allocator = true;
 	}
+	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
+		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
+	}
 	// Setup fallback allocator
 	if (using_fallback_allocator)
 	{
@@ -279,10 +290,6 @@ void init(Context* ctx)
 		ctx->SizePer_StringArena = megabytes(1);
 	}
 
-	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
-		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
-	}
-
 	// Override the current context (user has to put it back if unwanted).
 	_ctx = ctx;
 
@@ -331,6 +338,11 @@ void deinit(Context* ctx)
 {
 	GEN_ASSERT(context_counter);
 	GEN_ASSERT_MSG(context_counter > 0, "Attempted to deinit a context that for some reason wan't accounted for!");
+	// The containers of the context are released through the current context.
+	Context* current_ctx = _ctx;
+	_ctx = ctx;
+	parser_deinit();
+
 	usize index = 0;
 	usize left  = array_num(ctx->CodePools);
 	do
@@ -358,7 +370,7 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
-	left  = array_num( ctx->Fallback_AllocatorBuckets);
+	left  = ctx->Fallback_AllocatorBuckets != nullptr ? array_num( ctx->Fallback_AllocatorBuckets) : 0;
 	if (left)
 	{
 		index = 0;
@@ -371,8 +383,8 @@ void deinit(Context* ctx)
 		while ( left--, left );
 		array_free( ctx->Fallback_AllocatorBuckets);
 	}
-	parser_deinit();
 
+	_ctx = current_ctx;
 	if (_ctx == ctx) 
 		_ctx = nullptr;
 	-- context_counter;
@@ -409,7 +421,17 @@ void reset(Context* ctx)
 
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
+
+	Context* current_ctx = _ctx;
+	_ctx = ctx;
+	// The constants of the only context were just released with its code pools.
+	b32 is_base_context = context_counter == 1;
+	if (is_base_context)
+		context_counter = 0;
 	define_constants();
+	if (is_base_context)
+		context_counter = 1;
+	_ctx = current_ctx;
 }
 
 void set_context(Context* new_ctx) {
@@ -420,10 +442,14 @@ void set_context(Context* new_ctx) {
 AllocatorInfo get_cached_str_allocator( s32 str_length )
 {
 	Arena* last     = array_back(_ctx->StringArenas);
-	usize  size_req = str_length + sizeof(StrBuilderHeader) + sizeof(char*);
-	if ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize )
+	ssize  size_req = align_forward_s64( scast(ssize, str_length) + sizeof(StrBuilderHeader) + 1, GEN_DEFAULT_MEMORY_ALIGNMENT );
+	if ( arena_size_remaining( last, GEN_DEFAULT_MEMORY_ALIGNMENT ) < size_req )
 	{
-		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, _ctx->SizePer_StringArena );
+		// A string larger than an arena gets one of its own.
+		ssize arena_size = _ctx->SizePer_StringArena;
+		if ( arena_size < size_req + GEN_DEFAULT_MEMORY_ALIGNMENT )
+			arena_size = size_req + GEN_DEFAULT_MEMORY_ALIGNMENT;
+		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, arena_size );
 		if ( ! array_append( _ctx->StringArenas, new_arena ) )
 			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 
@@ -441,9 +467,11 @@ StrCached cache_str( Str str )
 		return result;
 	}
 	u64 key = crc32( str.Ptr, str.Len ); {
-		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
-			return * result;
+		// Strings may share a crc, those after the first take a key outside of the crc's range.
+		StrCached* result = nullptr;
+		for ( ; ( result = hashtable_get( _ctx->StrCache, key ) ) != nullptr; key += ( (u64)1 << 32 ) )
+			if ( str_are_equal( * result, str ) )
+				return * result;
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
@@ -471,15 +499,25 @@ Code make_code()
 	return result;
 }
 
+// Macro names may share a crc, those after the first take a key outside of the crc's range.
+internal
+u64 macro_key( Str name ) {
+	u64    key   = crc32( name.Ptr, name.Len );
+	Macro* macro = nullptr;
+	for ( ; ( macro = hashtable_get( _ctx->Macros, key ) ) != nullptr; key += ( (u64)1 << 32 ) )
+		if ( str_are_equal( macro->Name, name ) )
+			break;
+	return key;
+}
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
-	return hashtable_get( _ctx->Macros, key );
+	return hashtable_get( _ctx->Macros, macro_key(name) );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+	u64 key = macro_key( macro.Name );
 	macro.Name = cache_str(macro.Name);
 	hashtable_set( _ctx->Macros, key, macro );
 }
@@ -496,7 +534,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 	}
 	while (num--, num > 0);
@@ -513,7 +551,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 		++ macros;
 	}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index d1a51b3..e1b59aa 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -132,8 +132,8 @@ void parser_init()
 internal
 void parser_deinit()
 {
-	Array(Token) null_array = { nullptr };
-	_ctx->Lexer_Tokens = null_array;
+	if ( _ctx->Lexer_Tokens != nullptr )
+		array_free( _ctx->Lexer_Tokens );
 }
 
 #pragma region Helper Macros
-- 
2.43.0


From 1fd794c4dbc2ba635bdad2d2bcb730e7a0d7e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 11/53] fix: truncated %x/%X text kept the wrong letter case

---
 base/dependencies/printing.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 2b18a5f..07f7e57 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -68,10 +68,7 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		if ( info->precision > 0 )
 			len = info->precision < len ? info->precision : len;
 		if ( res + len > max_len )
-		{
-			c_str_copy_nulpad( text, str, max_len - res );
-			return max_len;
-		}
+			len = max_len - res;
 		res       += c_str_copy_nulpad( text, str, len );
 		text      += res;
 		remaining -= res;
@@ -96,10 +93,7 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		}
 
 		if ( res + len > max_len )
-		{
-			c_str_copy_nulpad( text, str, max_len - res );
-			return max_len;
-		}
+			len = max_len - res;
 		res += c_str_copy_nulpad( text, str, len );
 	}
 
-- 
2.43.0


From 21d1f89b4b50cd3cb63324847a6512e017dea24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 12/53] fix: token_fmt and untyped_fmt: bound the output, stop
 at an unterminated token, keep the exact length

---
 base/components/interface.untyped.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..1488088 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -28,7 +28,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 	char const* fmt     = va_arg( va, char const* );
 	char        current = *fmt;
 
-	while ( current )
+	while ( current && remaining )
 	{
 		ssize len = 0;
 
@@ -42,13 +42,13 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			current = * fmt;
 		}
 
-		if ( current == '<' )
+		if ( current == '<' && remaining )
 		{
 			char const* scanner = fmt + 1;
 
 			s32 tok_len = 0;
 
-			while ( *scanner != '>' )
+			while ( *scanner && *scanner != '>' )
 			{
 				tok_len++;
 				scanner++;
@@ -57,14 +57,14 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = fmt + 1;
 
 			u32      key   = crc32( token, tok_len );
-			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
+			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
 
 			if ( value )
 			{
 				ssize          left = value->Len;
 				char const* str  = value->Ptr;
 
-				while ( left-- )
+				while ( remaining && left-- )
 				{
 					* buf = * str;
 					buf++;
@@ -129,12 +129,14 @@ Code untyped_fmt( char const* fmt, ...)
 	va_start(va, fmt);
 	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
 	va_end(va);
-    Str content = { buf, length };
+	// The length includes the terminator, text longer than the buffer was cut.
+	Str content = { buf, length < 0 ? c_str_len( buf ) : length - 1 };
 
 	Code
 	result          = make_code();
+	result->Name    = cache_str( content );
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( content );
+	result->Content = result->Name;
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From abe9a9934754846d2420f2d040382d7f99a545be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 13/53] fix: deinit releases the token_fmt map

---
 base/components/interface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b0ce45b..0b9c927 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -370,6 +370,9 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
+	if ( ctx->token_fmt_map.Hashes != nullptr )
+		hashtable_destroy(ctx->token_fmt_map);
+
 	left  = ctx->Fallback_AllocatorBuckets != nullptr ? array_num( ctx->Fallback_AllocatorBuckets) : 0;
 	if (left)
 	{
-- 
2.43.0


From bdddf5c9a28e7c2df726b8352582662cf0ea3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 14/53] fix: lexer and parser: do not read past the content or
 the tokens, keep the failure scope valid, print failures with matching
 formats

---
 base/components/interface.parsing.cpp |  10 +-
 base/components/lexer.cpp             |  59 +++++++----
 base/components/parser.cpp            | 135 ++++++++++++++------------
 base/components/parser_types.hpp      |   2 +-
 4 files changed, 119 insertions(+), 87 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d5f4bef..d9eaee2 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -31,6 +31,8 @@ CodeConstructor parse_constructor( Str def )
 	if ( toks.Arr == nullptr )
 		return InvalidCode;
 
+	_ctx->parser.Tokens = toks;
+
 	// TODO(Ed): Constructors can have prefix attributes
 
 	CodeSpecifiers specifiers = NullCode;
@@ -57,8 +59,7 @@ CodeConstructor parse_constructor( Str def )
 				break;
 
 			default :
-				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
-				parser_pop(& _ctx->parser);
+				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				return InvalidCode;
 		}
 
@@ -77,7 +78,6 @@ CodeConstructor parse_constructor( Str def )
 		// <specifiers> ...
 	}
 
-	_ctx->parser.Tokens         = toks;
 	CodeConstructor result = parser_parse_constructor( specifiers );
 	return result;
 }
@@ -119,10 +119,7 @@ CodeEnum parse_enum( Str def )
 
 	TokArray toks = lex( def );
 	if ( toks.Arr == nullptr )
-	{
-		parser_pop(& _ctx->parser);
 		return InvalidCode;
-	}
 
 	_ctx->parser.Tokens = toks;
 	return parser_parse_enum( parser_not_inplace_def);
@@ -326,6 +323,7 @@ CodeVar parse_variable( Str def )
 #undef left
 #undef check
 #undef push_scope
+#undef parser_pop
 #undef def_assign
 
 // Here for C Variant
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index eb55f39..b36f8ed 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -19,14 +19,24 @@ StrBuilder tok_to_strbuilder(Token tok)
 
 bool lex__eat( TokArray* self, TokType type );
 
+// Looking outside of the lexed content gives a null token.
+internal
+Token* lex_at(TokArray self, s32 idx)
+{
+	local_persist thread_local Token null_token;
+	Token reset = NullToken;
+	null_token  = reset;
+	return idx >= 0 && idx < scast( s32, array_num(self.Arr)) ? & self.Arr[idx] : & null_token;
+}
+
 Token* lex_current(TokArray* self, bool skip_formatting )
 {
 	if ( skip_formatting )
 	{
-		while ( self->Arr[self->Idx].Type == Tok_NewLine || self->Arr[self->Idx].Type == Tok_Comment  )
+		while ( lex_at(* self, self->Idx)->Type == Tok_NewLine || lex_at(* self, self->Idx)->Type == Tok_Comment  )
 			self->Idx++;
 	}
-	return & self->Arr[self->Idx];
+	return lex_at(* self, self->Idx);
 }
 
 Token* lex_peek(TokArray self, bool skip_formatting)
@@ -34,12 +44,12 @@ Token* lex_peek(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_at(self, idx)->Type == Tok_NewLine )
 			idx++;
 
-		return & self.Arr[idx];
+		return lex_at(self, idx);
 	}
-	return & self.Arr[idx];
+	return lex_at(self, idx);
 }
 
 Token* lex_previous(TokArray self, bool skip_formatting)
@@ -47,12 +57,12 @@ Token* lex_previous(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_at(self, idx)->Type == Tok_NewLine )
 			idx --;
 
-		return & self.Arr[idx];
+		return lex_at(self, idx);
 	}
-	return & self.Arr[idx - 1];
+	return lex_at(self, idx - 1);
 }
 
 Token* lex_next(TokArray self, bool skip_formatting)
@@ -60,12 +70,12 @@ Token* lex_next(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_at(self, idx)->Type == Tok_NewLine )
 			idx++;
 
-		return & self.Arr[idx + 1];
+		return lex_at(self, idx + 1);
 	}
-	return & self.Arr[idx + 1];
+	return lex_at(self, idx + 1);
 }
 
 enum
@@ -77,6 +87,8 @@ enum
 forceinline
 void lexer_move_forward( LexContext* ctx )
 {
+	if ( ctx->left <= 0 )
+		return;
 	if ( * ctx->scanner == '\n' ) {
 		ctx->line   += 1;
 		ctx->column  = 1;
@@ -318,7 +330,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				else
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
-								" in preprocessor directive (%d, %d)\n%.100s"
+								" in preprocessor directive (%d, %d)\n%S"
 						, (* ctx->scanner), ctx->line, ctx->column
 						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
 					break;
@@ -338,6 +350,9 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				break;
 			}
 
+			if ( ctx->left == 0 )
+				break;
+
 			move_forward();
 			ctx->token.Text.Len++;
 		}
@@ -398,8 +413,11 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			preprocess_content.Text.Len++;
 		}
 
-		move_forward();
-		preprocess_content.Text.Len++;
+		if ( ctx->left )
+		{
+			move_forward();
+			preprocess_content.Text.Len++;
+		}
 
 		if ( (* ctx->scanner) == '\r' && ctx->scanner[1] == '\n' )
 		{
@@ -570,6 +588,8 @@ neverinline
 TokArray lex( Str content )
 {
 	LexContext c; LexContext* ctx = & c;
+	// The lexer looks ahead until a terminator, which a slice of a larger text doesn't have.
+	content   = strbuilder_to_str( strbuilder_make_str( _ctx->Allocator_Temp, content ) );
 	c.content = content;
 	c.left    = content.Len;
 	c.scanner = content.Ptr;
@@ -698,7 +718,7 @@ TokArray lex( Str content )
 					}
 					else
 					{
-						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%s", c.scanner, min( 100, c.left ) );
+						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
 
 						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
 					}
@@ -1131,18 +1151,19 @@ TokArray lex( Str content )
 						move_forward();
 
 						bool star   = (* ctx->scanner)    == '*';
-						bool slash  = c.scanner[1] == '/';
+						bool slash  = star && c.scanner[1] == '/';
 						bool at_end = star && slash;
-						while ( c.left && ! at_end  )
+						while ( c.left > 0 && ! at_end  )
 						{
 							move_forward();
 							c.token.Text.Len++;
 
 							star   = (* ctx->scanner)    == '*';
-							slash  = c.scanner[1] == '/';
+							slash  = star && c.scanner[1] == '/';
 							at_end = star && slash;
 						}
-						c.token.Text.Len += 2;
+						if ( at_end )
+							c.token.Text.Len += 2;
 						move_forward();
 						move_forward();
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index e1b59aa..5f45a44 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -11,34 +11,47 @@
 constexpr bool lex_dont_skip_formatting = false;
 constexpr bool      lex_skip_formatting = true;
 
-void parser_push( ParseContext* ctx, StackNode* node )
+// A failed parse can leave its node on the stack, so the nodes outlive the procedure that pushed them.
+StackNode* parser_push( ParseContext* ctx, StackNode entry )
 {
+	StackNode* node = rcast( StackNode*, alloc( _ctx->Allocator_Temp, size_of(StackNode) ));
+	* node          = entry;
 	node->Prev = ctx->Scope;
 	ctx->Scope = node;
 
 #if 0 && GEN_BUILD_DEBUG
 	log_fmt("\tEntering _ctx->parser: %.*s\n", Scope->ProcName.Len, Scope->ProcName.Ptr );
 #endif
+	return node;
 }
 
-void parser_pop(ParseContext* ctx)
+// Drops the node, and what any failed parse within it left behind.
+void parser_pop_node(ParseContext* ctx, StackNode* node)
 {
 #if 0 && GEN_BUILD_DEBUG
 	log_fmt("\tPopping  _ctx->parser: %.*s\n", Scope->ProcName.Len, Scope->ProcName.Ptr );
 #endif
-	ctx->Scope = ctx->Scope->Prev;
+	ctx->Scope = node->Prev;
 }
 
 StrBuilder parser_to_strbuilder(ParseContext ctx)
 {
 	StrBuilder result = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(4) );
+	if ( ctx.Scope == nullptr || ctx.Tokens.Arr == nullptr || array_num(ctx.Tokens.Arr) == 0 )
+		return result;
+
+	// Either may be past the last token.
+	Token last_valid  = * lex_current(& ctx.Tokens, true);
+	if ( last_valid.Text.Ptr == nullptr )
+		last_valid = * array_back(ctx.Tokens.Arr);
 
-	Token scope_start = * ctx.Scope->Start;
-	Token last_valid  = ctx.Tokens.Idx >= array_num(ctx.Tokens.Arr) ? ctx.Tokens.Arr[array_num(ctx.Tokens.Arr) -1] : (* lex_current(& ctx.Tokens, true));
+	Token scope_start = ctx.Scope->Start;
+	if ( scope_start.Text.Ptr == nullptr )
+		scope_start = last_valid;
 
 	sptr        length  = scope_start.Text.Len;
 	char const* current = scope_start.Text.Ptr + length;
-	while ( current <= array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
+	while ( current <= array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) && (* current) != '\n' && length < 74 )
 	{
 		current++;
 		length++;
@@ -52,9 +65,6 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	sptr   dist            = (sptr)last_valid.Text.Ptr - (sptr)scope_start.Text.Ptr + 2;
 	sptr   length_from_err = dist;
 
-	Str err_str        = { last_valid.Text.Ptr, length_from_err };
-	StrBuilder line_from_err = strbuilder_make_str( _ctx->Allocator_Temp, err_str );
-
 	if ( length_from_err < 100 )
 		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
 	else
@@ -81,7 +91,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 bool lex__eat(TokArray* self, TokType type )
 {
 	if ( array_num(self->Arr) - self->Idx <= 0 ) {
-		log_failure( "No tokens left.\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "No tokens left.\n%SB", parser_to_strbuilder(_ctx->parser) );
 		return false;
 	}
 
@@ -104,7 +114,7 @@ bool lex__eat(TokArray* self, TokType type )
 	if ( not_accepted )
 	{
 		Token tok = * lex_current( self, lex_skip_formatting );
-		log_failure( "Parse Error, TokArray::eat, Expected: ' %s ' not ' %.*s ' (%d, %d)`\n%s"
+		log_failure( "Parse Error, TokArray::eat, Expected: ' %s ' not ' %.*s ' (%d, %d)`\n%SB"
 			, toktype_to_str(type).Ptr
 			, at_idx.Text.Len, at_idx.Text.Ptr
 			, tok.Line
@@ -141,16 +151,18 @@ void parser_deinit()
 #define check_parse_args( def ) _check_parse_args(def, stringize(_func_) )
 bool _check_parse_args( Str def, char const* func_name )
 {
+	// Nothing is being parsed yet.
+	ParseContext fresh = {};
+	_ctx->parser       = fresh;
+
 	if ( def.Len <= 0 )
 	{
-		log_failure( c_str_fmt_buf("gen::%s: length must greater than 0", func_name) );
-		parser_pop(& _ctx->parser);
+		log_failure( "gen::%s: length must greater than 0", func_name );
 		return false;
 	}
 	if ( def.Ptr == nullptr )
 	{
-		log_failure( c_str_fmt_buf("gen::%s: def was null", func_name) );
-		parser_pop(& _ctx->parser);
+		log_failure( "gen::%s: def was null", func_name );
 		return false;
 	}
 	return true;
@@ -182,9 +194,11 @@ bool _check_parse_args( Str def, char const* func_name )
 #	define check( Type_ )        ( left && currtok.Type        == Type_ )
 
 #	define push_scope()                                                                                                         \
-	Str null_name = {};                                                                                                         \
-	StackNode scope = { nullptr, lex_current( &  _ctx->parser.Tokens, lex_dont_skip_formatting ), null_name, txt( __func__ ) }; \
-	parser_push( & _ctx->parser, & scope )
+	Str null_name = {};                                                                                                           \
+	StackNode scope_entry = { nullptr, * lex_current( &  _ctx->parser.Tokens, lex_dont_skip_formatting ), null_name, txt( __func__ ) }; \
+	StackNode* scope = parser_push( & _ctx->parser, scope_entry )
+
+#	define parser_pop( ctx ) parser_pop_node( ctx, scope )
 
 #pragma endregion Helper Macros
 
@@ -512,14 +526,14 @@ Code parse_array_decl()
 
 		if ( left == 0 )
 		{
-			log_failure( "Error, unexpected end of array declaration ( '[]' scope started )\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, unexpected end of array declaration ( '[]' scope started )\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
 
 		if ( currtok.Type == Tok_BraceSquare_Close )
 		{
-			log_failure( "Error, empty array expression in definition\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, empty array expression in definition\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -538,14 +552,14 @@ Code parse_array_decl()
 
 		if ( left == 0 )
 		{
-			log_failure( "Error, unexpected end of array declaration, expected ]\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, unexpected end of array declaration, expected ]\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
 
 		if ( currtok.Type != Tok_BraceSquare_Close )
 		{
-			log_failure( "%s: Error, expected ] in array declaration, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected ] in array declaration, not %S\n%SB", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -685,7 +699,7 @@ internal
 Code parse_class_struct( TokType which, bool inplace_def )
 {
 	if ( which != Tok_Decl_Class && which != Tok_Decl_Struct ) {
-		log_failure( "Error, expected class or struct, not %s\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected class or struct, not %S\n%SB", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -978,7 +992,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -1116,7 +1130,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 
 		if ( member == Code_Invalid )
 		{
-			log_failure( "Failed to parse member\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Failed to parse member\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1218,7 +1232,7 @@ Code parse_complicated_definition( TokType which )
 			return result;
 		}
 
-		log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1273,7 +1287,7 @@ Code parse_complicated_definition( TokType which )
 
 		if ( ! ok_to_parse )
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1292,7 +1306,7 @@ Code parse_complicated_definition( TokType which )
 			&&	( tokens.Arr[idx - 4].Type != which))
 		)
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1340,8 +1354,7 @@ Code parse_assignment_expression()
 
 	if ( currtok.Type == Tok_Statement_End && currtok.Type != Tok_Comma )
 	{
-		log_failure( "Expected expression after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
-		parser_pop(& _ctx->parser);
+		log_failure( "Expected expression after assignment operator\n%SB", parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -1393,7 +1406,7 @@ Code parse_forward_or_definition( TokType which, bool is_inplace )
 
 		default:
 			log_failure( "Error, wrong token type given to parse_complicated_definition "
-				"(only supports class, enum, struct, union) \n%s"
+				"(only supports class, enum, struct, union) \n%SB"
 				, parser_to_strbuilder(_ctx->parser) );
 
 			return InvalidCode;
@@ -1508,7 +1521,7 @@ CodeFn parse_function_after_name(
 
 			default:
 			{
-				log_failure("Body must be either of Function_Body or Untyped type, %s\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
+				log_failure("Body must be either of Function_Body or Untyped type, %S\n%SB", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1654,7 +1667,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Decl_Extern_Linkage:
 				if ( which == CT_Extern_Linkage_Body )
-					log_failure( "Nested extern linkage\n%s", parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Nested extern linkage\n%SB", parser_to_strbuilder(_ctx->parser) );
 
 				member = cast(Code, parser_parse_extern_link());
 				// extern "..." { ... }
@@ -1745,7 +1758,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Export: {
 				if ( which == CT_Export_Body )
-					log_failure( "Nested export declaration\n%s", parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Nested export declaration\n%SB", parser_to_strbuilder(_ctx->parser) );
 
 				member = cast(Code, parser_parse_export_body());
 				// export { ... }
@@ -1763,7 +1776,7 @@ CodeBody parse_global_nspace( CodeType which )
 			{
 				if (tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -2062,7 +2075,7 @@ Token parse_identifier( bool* possible_member_function )
 		Token invalid = NullToken;
 		if ( left == 0 )
 		{
-			log_failure( "Error, unexpected end of static symbol identifier\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, unexpected end of static symbol identifier\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2077,7 +2090,7 @@ Token parse_identifier( bool* possible_member_function )
 				return name;
 			}
 
-			log_failure( "Error, had a ~ operator after %SB but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, had a ~ operator after %S but not a destructor\n%SB", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2089,7 +2102,7 @@ Token parse_identifier( bool* possible_member_function )
 
 			else
 			{
-				log_failure( "Found a member function pointer identifier but the parsing context did not expect it\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Found a member function pointer identifier but the parsing context did not expect it\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return invalid;
 			}
@@ -2097,7 +2110,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type != Tok_Identifier )
 		{
-			log_failure( "Error, expected static symbol identifier, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected static symbol identifier, not %S\n%SB", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2128,7 +2141,7 @@ CodeInclude parse_include()
 
 	if ( ! check( Tok_String ))
 	{
-		log_failure( "Error, expected include string after #include\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected include string after #include\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2176,7 +2189,7 @@ CodeOperator parse_operator_after_ret_type(
 		&& currtok.Type != Tok_Ampersand
 		&& currtok.Type != Tok_Ampersand_DBL )
 	{
-		log_failure( "Expected operator after 'operator' keyword\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Expected operator after 'operator' keyword\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2429,7 +2442,7 @@ CodeOperator parse_operator_after_ret_type(
 			{
 				if ( op == Op_Invalid )
 				{
-					log_failure( "Invalid operator '%s'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Invalid operator '%S'\n%SB", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2439,7 +2452,7 @@ CodeOperator parse_operator_after_ret_type(
 
 	if ( op == Op_Invalid )
 	{
-		log_failure( "Invalid operator '%s'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Invalid operator '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2644,7 +2657,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		else
 		{
 			if ( expects_function ) {
-				log_failure( "Expected function declaration (consteval was used)\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Expected function declaration (consteval was used)\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -2700,7 +2713,7 @@ CodePragma parse_pragma()
 	// #pragma
 
 	if ( ! check( Tok_Preprocess_Content )) {
-		log_failure( "Error, expected content after #pragma\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #pragma\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2812,7 +2825,7 @@ CodeParams parse_params( bool use_template_capture )
 			Token value_tok = currtok;
 
 			if ( currtok.Type == Tok_Comma ) {
-				log_failure( "Expected value after assignment operator\n%s.", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Expected value after assignment operator\n%SB.", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -2921,7 +2934,7 @@ CodeParams parse_params( bool use_template_capture )
 				Token value_tok = currtok;
 
 				if ( currtok.Type == Tok_Comma ) {
-					log_failure( "Expected value after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Expected value after assignment operator\n%SB", parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2982,7 +2995,7 @@ CodeParams parse_params( bool use_template_capture )
 	else
 	{
 		if ( ! check( Tok_Operator ) || currtok.Text.Ptr[ 0 ] != '>' ) {
-			log_failure( "Expected '<' after 'template' keyword\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Expected '<' after 'template' keyword\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -3001,7 +3014,7 @@ CodePreprocessCond parse_preprocess_cond()
 
 	if ( ! tok_is_preprocess_cond(currtok) )
 	{
-		log_failure( "Error, expected preprocess conditional\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected preprocess conditional\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3014,7 +3027,7 @@ CodePreprocessCond parse_preprocess_cond()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3042,7 +3055,7 @@ Code parse_simple_preprocess( TokType which )
 
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
-		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		log_failure("Expected the macro %S to be registered\n%SB", full_macro.Text, parser_to_strbuilder(_ctx->parser));
 		return NullCode;
 	}
 
@@ -3598,7 +3611,7 @@ CodeDefine parser_parse_define()
 	define = (CodeDefine) make_code();
 	define->Type = CT_Preprocess_Define;
 	if ( ! check( Tok_Identifier ) ) {
-		log_failure( "Error, expected identifier after #define\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected identifier after #define\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3646,7 +3659,7 @@ CodeDefine parser_parse_define()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define %s\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define %S\n%SB", define->Name, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3695,7 +3708,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		eat( Tok_Operator );
 	else
 	{
-		log_failure( "Expected destructor '~' token\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Expected destructor '~' token\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop( & _ctx->parser);
 		return InvalidCode;
 	}
@@ -3736,7 +3749,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		}
 		else
 		{
-			log_failure( "Pure or default specifier expected due to '=' token\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Pure or default specifier expected due to '=' token\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop( & _ctx->parser);
 			return InvalidCode;
 		}
@@ -3832,7 +3845,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 		type = parser_parse_type(parser_not_from_template, nullptr);
 		if ( cast(Code, type) == Code_Invalid )
 		{
-			log_failure( "Failed to parse enum classifier\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Failed to parse enum classifier\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -3865,7 +3878,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 		{
 			if ( ! expects_entry )
 			{
-				log_failure( "Did not expect an entry after last member of enum body.\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Did not expect an entry after last member of enum body.\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				break;
 			}
@@ -3975,7 +3988,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 			}
 
 			if ( member == Code_Invalid ) {
-				log_failure( "Failed to parse member\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Failed to parse member\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -4071,7 +4084,7 @@ CodeExtern parser_parse_extern_link()
 	CodeBody entry = parser_parse_extern_link_body();
 	if ( cast(Code, entry) == Code_Invalid )
 	{
-		log_failure( "Failed to parse body\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Failed to parse body\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -4791,7 +4804,7 @@ else if ( currtok.Type == Tok_DeclType )
 			_ctx->parser.Scope->Name = name.Text;
 			if ( ! tok_is_valid(name) )
 			{
-				log_failure( "Error, failed to type signature\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Error, failed to type signature\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -4812,7 +4825,7 @@ else if ( currtok.Type == Tok_DeclType )
 		_ctx->parser.Scope->Name = name.Text;
 		if ( ! tok_is_valid(name) )
 		{
-			log_failure( "Error, failed to type signature\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, failed to type signature\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 2393945..2ccb543 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -112,7 +112,7 @@ struct StackNode
 {
 	StackNode* Prev;
 
-	Token* Start;
+	Token  Start;
 	Str    Name;          // The name of the AST node (if parsed)
 	Str    ProcName;    // The name of the procedure
 };
-- 
2.43.0


From 41575a98f76e5c3aab3320b6d01a98bfcb6236d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 15/53] fix: upfront constructors: body types, operator
 validation, parameter arrays, null checks and failure formats

---
 base/components/interface.upfront.cpp | 206 +++++++++++++-------------
 1 file changed, 106 insertions(+), 100 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..1f6a74a 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -51,6 +51,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	if ( ! ret_type )
 	{
 		log_failure("gen::def_operator: ret_type is null but is required by operator %S", operator_to_str(op));
+		return OpValResult_Fail;
 	}
 
 	if ( ret_type->Type != CT_Typename )
@@ -115,7 +116,10 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		case Op_Increment:
 		case Op_Decrement:
 			// If its not set, it just means its a prefix member op.
-			if ( params_code )
+			if ( ! params_code )
+				is_member_symbol = true;
+
+			else
 			{
 				if ( params_code->Type != CT_Parameters )
 				{
@@ -139,7 +143,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					case 2:
 						check_param_eq_ret();
 
-						if ( ! code_is_equal((Code)params_get(params_code, 1), (Code)t_int ) )
+						if ( ! code_is_equal((Code)params_get(params_code, 1)->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
 								"operator %S requires second parameter of non-member definition to be int for post-decrement",
@@ -172,12 +176,13 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
+				if ( ! code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
 				{
 					log_failure("gen::def_operator: "
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
 						"param type: %S\n"
 						"return type: %S\n"
+						, operator_to_str(op)
 						, code_debug_str((Code)params_code)
 						, code_debug_str((Code)ret_type)
 					);
@@ -380,11 +385,11 @@ forceinline
 bool name__check( char const* context, Str name )
 {
 	if ( name.Len <= 0 ) {
-		log_failure( "gen::%s: Invalid name length provided - %d",  name.Len );
+		log_failure( "gen::%s: Invalid name length provided - %d", context, name.Len );
 		return false;
 	}
 	if ( name.Ptr == nullptr ) {
-		log_failure( "gen::%s: name is null" );
+		log_failure( "gen::%s: name is null", context );
 		return false;
 	}
 	return true;
@@ -443,19 +448,17 @@ CodeComment def_comment( Str content )
 	s32         curr          = 0;
 	do
 	{
-		char const* next   = scanner;
-		s32         length = 0;
-		while ( next != end && scanner[ length ] != '\n' )
-		{
-			next = scanner + length;
+		s32 length = 0;
+		while ( scanner + length != end && scanner[ length ] != '\n' )
+			length++;
+		if ( scanner + length != end )
 			length++;
-		}
-		length++;
 
-		strbuilder_append_fmt(& cmt_formatted, "//%.*s", length, scanner );
+		strbuilder_append_str(& cmt_formatted, txt("//") );
+		strbuilder_append_c_str_len(& cmt_formatted, scanner, length );
 		scanner += length;
 	}
-	while ( scanner <= end );
+	while ( scanner < end );
 
 	if ( * strbuilder_back(cmt_formatted) != '\n' )
 		strbuilder_append_str( & cmt_formatted, txt("\n") );
@@ -476,7 +479,7 @@ CodeComment def_comment( Str content )
 CodeConstructor def_constructor( Opts_def_constructor p )
 {
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure("gen::def_constructor: params must be of Parameters type - %s", code_debug_str((Code)p.params));
+		log_failure("gen::def_constructor: params must be of Parameters type - %S", code_debug_str((Code)p.params));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -496,7 +499,7 @@ CodeConstructor def_constructor( Opts_def_constructor p )
 			break;
 
 			default:
-				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -517,12 +520,12 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && ( p.parent->Type != CT_Class && p.parent->Type != CT_Struct && p.parent->Type != CT_Typename && p.parent->Type != CT_Untyped ) ) {
-		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -544,7 +547,7 @@ CodeClass def_class( Str name, Opts_def_struct p )
 			break;
 
 			default:
-				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -588,7 +591,7 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 CodeDestructor def_destructor( Opts_def_destructor p )
 {
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -605,7 +608,7 @@ CodeDestructor def_destructor( Opts_def_destructor p )
 			break;
 
 			default:
-				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -626,12 +629,12 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 		return InvalidCode;
 	}
 	if ( p.type && p.type->Type != CT_Typename ) {
-		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %s", code_debug_str(p.type) );
+		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %S", code_debug_str(p.type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -649,7 +652,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 			break;
 
 			default:
-				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %s", code_debug_str(p.body));
+				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -671,7 +674,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 	else if ( p.type_macro ) {
 		result->UnderlyingTypeMacro = p.type_macro;
 	}
-	else if ( result->Type != CT_Enum_Class_Fwd && result->Type != CT_Enum_Fwd )
+	else if ( result->Type == CT_Enum_Fwd )
 	{
 		log_failure( "gen::def_enum: enum forward declaration must have an underlying type" );
 		GEN_DEBUG_TRAP();
@@ -701,7 +704,7 @@ CodeExtern def_extern_link( Str name, CodeBody body )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Extern_Linkage_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -732,7 +735,7 @@ CodeFriend def_friend( Code declaration )
 		break;
 
 		default:
-			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %s", code_debug_str(declaration));
+			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %S", code_debug_str(declaration));
 			return InvalidCode;
 	}
 	CodeFriend
@@ -749,22 +752,22 @@ CodeFn def_function( Str name, Opts_def_function p )
 		return InvalidCode;
 	}
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure( "gen::def_function: params was not a `Parameters` type: %s", code_debug_str(p.params) );
+		log_failure( "gen::def_function: params was not a `Parameters` type: %S", code_debug_str(p.params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.ret_type && p.ret_type->Type != CT_Typename ) {
-		log_failure( "gen::def_function: ret_type was not a Typename: %s", code_debug_str(p.ret_type) );
+		log_failure( "gen::def_function: ret_type was not a Typename: %S", code_debug_str(p.ret_type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specs && p.specs-> Type != CT_Specifiers ) {
-		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %s", code_debug_str(p.specs) );
+		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %S", code_debug_str(p.specs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attrs && p.attrs->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %s", code_debug_str(p.attrs) );
+		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %S", code_debug_str(p.attrs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -784,7 +787,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 
 			default:
 			{
-				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				return InvalidCode;
 			}
 		}
@@ -805,7 +808,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 CodeInclude def_include( Str path, Opts_def_include p )
 {
 	if ( path.Len <= 0 || path.Ptr == nullptr ) {
-		log_failure( "gen::def_include: Invalid path provided - %d" );
+		log_failure( "gen::def_include: Invalid path provided - %d", path.Len );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -846,7 +849,7 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 		return InvalidCode;
 	}
 	if ( body && body->Type != CT_Namespace_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_namespace: body is not of namespace or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_namespace: body is not of namespace or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -862,12 +865,12 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -903,7 +906,7 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 
 			default:
 			{
-				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				GEN_DEBUG_TRAP();
 				return InvalidCode;
 			}
@@ -933,7 +936,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_operator_cast: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_operator_cast: type is not a typename - %S", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -944,7 +947,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		result->Type = CT_Operator_Cast;
 
 		if ( p.body->Type != CT_Function_Body && p.body->Type != CT_Execution ) {
-			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %s", code_debug_str(p.body) );
+			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %S", code_debug_str(p.body) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -966,11 +969,11 @@ CodeParams def_param( CodeTypename type, Str name, Opts_def_param p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_param: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_param: type is not a typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped ) {
-		log_failure( "gen::def_param: value is not untyped - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_param: value is not untyped - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeParams
@@ -1037,17 +1040,17 @@ CodeSpecifiers def_specifier( Specifier spec )
 CodeStruct def_struct( Str name, Opts_def_struct p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %s", code_debug_str(cast(Code, p.attributes)) );
+		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %S", code_debug_str(cast(Code, p.attributes)) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && p.parent->Type != CT_Typename ) {
-		log_failure( "gen::def_struct: parent was not a `Struct` type - %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_struct: parent was not a `Struct` type - %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-	if ( p.body && p.body->Type != CT_Struct_Body ) {
-		log_failure( "gen::def_struct: body was not a Struct_Body type - %s", code_debug_str(p.body) );
+	if ( p.body && p.body->Type != CT_Struct_Body && p.body->Type != CT_Untyped ) {
+		log_failure( "gen::def_struct: body was not a Struct_Body type - %S", code_debug_str(p.body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1059,8 +1062,9 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		result->Name = cache_str( name );
 
 	if ( p.body ) {
-		result->Type = CT_Struct;
-		result->Body = p.body;
+		result->Type         = CT_Struct;
+		result->Body         = p.body;
+		result->Body->Parent = cast(Code, result);
 	}
 	else {
 		result->Type = CT_Struct_Fwd;
@@ -1083,7 +1087,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		return InvalidCode;
 	}
 	if ( params && params->Type != CT_Parameters ){
-		log_failure( "gen::def_template: params is not of parameters type - %s", code_debug_str(params) );
+		log_failure( "gen::def_template: params is not of parameters type - %S", code_debug_str(params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1097,7 +1101,8 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		break;
 
 		default:
-			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %s", code_debug_str(declaration) );
+			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
+			return InvalidCode;
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
@@ -1118,17 +1123,17 @@ CodeTypename def_type( Str name, Opts_def_type p )
 	CodeSpecifiers specifiers = p.specifiers;
 	CodeAttributes attributes = p.attributes;
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_type: attributes is not of attributes type - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_type: attributes is not of attributes type - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_type: specifiers is not of specifiers type - %s", code_debug_str((Code)p.specifiers) );
+		log_failure( "gen::def_type: specifiers is not of specifiers type - %S", code_debug_str((Code)p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.array_expr && p.array_expr->Type != CT_Untyped ) {
-		log_failure( "gen::def_type: arrayexpr is not of untyped type - %s", code_debug_str((Code)p.array_expr) );
+		log_failure( "gen::def_type: arrayexpr is not of untyped type - %S", code_debug_str((Code)p.array_expr) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1164,12 +1169,12 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		case CT_Typename:
 			break;
 		default:
-			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %s", code_debug_str((Code)type) );
+			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %S", code_debug_str((Code)type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1191,7 +1196,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	if ( name.Len <= 0  )
 	{
 		if (type->Type != CT_Untyped) {
-			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %s", code_debug_str(type) );
+			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %S", code_debug_str(type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -1213,12 +1218,12 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Union_Body ) {
-		log_failure( "gen::def_union: body was not a Union_Body type - %s", code_debug_str(body) );
+		log_failure( "gen::def_union: body was not a Union_Body type - %S", code_debug_str(body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1235,7 +1240,7 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1247,7 +1252,7 @@ CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1282,22 +1287,22 @@ CodeVar def_variable( CodeTypename type, Str name, Opts_def_variable p )
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes )
 	{
-		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %S", code_debug_str(p.attributes) );
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers )
 	{
-		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %S", code_debug_str(p.specifiers) );
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename )
 	{
-		log_failure( "gen::def_variable: type was not a Typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_variable: type was not a Typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped )
 	{
-		log_failure( "gen::def_variable: value was not a `Untyped` type - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_variable: value was not a `Untyped` type - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeVar
@@ -1357,7 +1362,7 @@ CodeBody def_class_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1377,7 +1382,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
+	result->Type = CT_Class_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1389,7 +1394,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1412,7 +1417,8 @@ CodeDefineParams def_define_params( s32 num, ... )
 	Code_POD         pod   = va_arg(va, Code_POD);
 	CodeDefineParams param = pcast( CodeDefineParams, pod );
 
-	null_check( def_define_params, param );
+	if ( ! null_check( def_define_params, param ) )
+		return InvalidCode;
 	if ( param->Type != CT_Parameters_Define ) {
 		log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 		return InvalidCode;
@@ -1423,6 +1429,8 @@ CodeDefineParams def_define_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeDefineParams, pod );
+		if ( ! null_check( def_define_params, param ) )
+			return InvalidCode;
 		if ( param->Type != CT_Parameters_Define ) {
 			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 			return InvalidCode;
@@ -1444,17 +1452,15 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		return InvalidCode;                                                                                                                       \
 	}                                                                                                                                             \
 	if (current->Type != CT_Parameters_Define ) {                                                                                                 \
-		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
+		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1482,7 +1488,7 @@ CodeBody def_enum_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1508,7 +1514,7 @@ CodeBody def_enum_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1540,7 +1546,7 @@ CodeBody def_export_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1572,7 +1578,7 @@ CodeBody def_export_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1606,7 +1612,7 @@ CodeBody def_extern_link_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1639,7 +1645,7 @@ CodeBody def_extern_link_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1673,7 +1679,7 @@ CodeBody def_function_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1705,7 +1711,7 @@ CodeBody def_function_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1744,7 +1750,7 @@ CodeBody def_global_body( s32 num, ... )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1780,7 +1786,7 @@ CodeBody def_global_body_arr( s32 num, Code* codes )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1815,7 +1821,7 @@ CodeBody def_namespace_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1835,7 +1841,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
+	result->Type = CT_Namespace_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1847,7 +1853,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default: break;
@@ -1869,7 +1875,8 @@ CodeParams def_params( s32 num, ... )
 	Code_POD  pod   = va_arg(va, Code_POD);
 	CodeParams param = pcast( CodeParams, pod );
 
-	null_check( def_params, param );
+	if ( ! null_check( def_params, param ) )
+		return InvalidCode;
 	if ( param->Type != CT_Parameters ) {
 		log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 		return InvalidCode;
@@ -1880,6 +1887,8 @@ CodeParams def_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeParams, pod );
+		if ( ! null_check( def_params, param ) )
+			return InvalidCode;
 		if ( param->Type != CT_Parameters ) {
 			log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 			return InvalidCode;
@@ -1901,18 +1910,15 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		return InvalidCode;                                                                                            \
 	}                                                                                                                  \
 	if (current->Type != CT_Parameters ) {                                                                             \
-		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
+		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
@@ -1992,7 +1998,7 @@ CodeBody def_struct_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -2024,7 +2030,7 @@ CodeBody def_struct_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default:
@@ -2056,7 +2062,7 @@ CodeBody def_union_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -2082,7 +2088,7 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
-- 
2.43.0


From ac803703678f50c2d9a291f784fd76da1b764126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 16/53] fix: module_to_strbuilder writes the module keyword

---
 base/components/code_serialization.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index f96568b..3ebe081 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -634,6 +634,8 @@ void module_to_strbuilder_ref(CodeModule self, StrBuilder* result )
 
 	if (((scast(u32, ModuleFlag_Import) & scast(u32, self->ModuleFlags)) == scast(u32, ModuleFlag_Import)))
 		strbuilder_append_str( result, txt("import "));
+	else
+		strbuilder_append_str( result, txt("module "));
 
 	strbuilder_append_fmt( result, "%S;\n", self->Name );
 }
-- 
2.43.0


From f9041c8d8d572f500736ba379d0aaa8e6d487649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 17/53] fix: AST: list copies, body iteration, validation,
 equality of parameters and bodies, debug_str of the next entry

---
 base/components/ast.cpp     | 107 ++++++++++++++++++++----------------
 base/components/inlines.hpp |  41 ++++++++++----
 2 files changed, 91 insertions(+), 57 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..9c80006 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -257,8 +257,8 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
@@ -707,6 +707,16 @@ bool code_is_equal( Code self, Code other )
 		                                                                                           \
 			return false;                                                                          \
 		}                                                                                          \
+	}                                                                                              \
+	else if ( other->ast )                                                                         \
+	{                                                                                              \
+		log_fmt("\nAST::is_equal: Failed for member " #ast " only other has it\n"                     \
+				"AST  : %S\n"                                                                  \
+				"Other: %S\n"                                                                  \
+			, code_debug_str(self)                                                                 \
+			, code_debug_str(other)                                                                \
+		);                                                                                         \
+		return false;                                                                              \
 	}
 
 		case CT_NewLine:
@@ -917,6 +927,8 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Parameters:
 		{
+			check_member_val( NumEntries );
+
 			if ( self->NumEntries > 1 )
 			{
 				Code curr       = self;
@@ -931,13 +943,15 @@ bool code_is_equal( Code self, Code other )
 									"AST  : %S\n"
 									"Other: %S\n"
 									"For ast member: %S\n"
+								, code_debug_str(self)
+								, code_debug_str(other)
 								, code_debug_str(curr)
 							);
 
 							return false;
 						}
 
-						if ( str_are_equal(curr->Name, curr_other->Name) )
+						if ( ! str_are_equal(curr->Name, curr_other->Name) )
 						{
 							log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
 									"AST  : %S\n"
@@ -952,7 +966,7 @@ bool code_is_equal( Code self, Code other )
 							return false;
 						}
 
-						if ( curr->ValueType && ! code_is_equal(curr->ValueType, curr_other->ValueType) )
+						if ( curr->ValueType == nullptr ? curr_other->ValueType != nullptr : ! code_is_equal(curr->ValueType, curr_other->ValueType) )
 						{
 							log_fmt( "\nAST::is_equal: Failed for parameter value type check\n"
 									"AST  : %S\n"
@@ -967,7 +981,7 @@ bool code_is_equal( Code self, Code other )
 							return false;
 						}
 
-						if ( curr->Value && ! code_is_equal(curr->Value, curr_other->Value) )
+						if ( curr->Value == nullptr ? curr_other->Value != nullptr : ! code_is_equal(curr->Value, curr_other->Value) )
 						{
 							log_fmt( "\nAST::is_equal: Failed for parameter value check\n"
 									"AST  : %S\n"
@@ -987,8 +1001,6 @@ bool code_is_equal( Code self, Code other )
 					curr_other = curr_other->Next;
 				}
 
-				check_member_val( NumEntries );
-
 				return true;
 			}
 
@@ -1088,6 +1100,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( Attributes );
+
+			return true;
 		}
 
 		case CT_Using:
@@ -1118,13 +1132,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
+		case CT_Extern_Linkage_Body:
+		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
 		case CT_Struct_Body:
 		case CT_Union_Body:
 		{
-			check_member_ast( Front );
-			check_member_ast( Back );
+			check_member_val( NumEntries );
 
 			Code curr       = self->Front;
 			Code curr_other = other->Front;
@@ -1162,8 +1177,6 @@ bool code_is_equal( Code self, Code other )
 				curr_other = curr_other->Next;
 			}
 
-			check_member_val( NumEntries );
-
 			return true;
 		}
 
@@ -1182,7 +1195,7 @@ bool code_validate_body(Code self)
 		case CT_Class_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1196,9 +1209,9 @@ bool code_validate_body(Code self)
 		case CT_Enum_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in enum body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1209,7 +1222,7 @@ bool code_validate_body(Code self)
 		case CT_Export_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1220,10 +1233,10 @@ bool code_validate_body(Code self)
 			}
 		}
 		break;
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1237,7 +1250,7 @@ bool code_validate_body(Code self)
 		case CT_Function_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1251,7 +1264,7 @@ bool code_validate_body(Code self)
 		case CT_Global_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )switch (entry->Type)
 			{
 				GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1262,7 +1275,7 @@ bool code_validate_body(Code self)
 		case CT_Namespace_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1273,7 +1286,7 @@ bool code_validate_body(Code self)
 		case CT_Struct_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1284,9 +1297,9 @@ bool code_validate_body(Code self)
 		case CT_Union_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in union body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1299,5 +1312,5 @@ bool code_validate_body(Code self)
 			log_failure( "AST::validate_body: Invalid this AST does not have a body %S", code_debug_str(self) );
 			return false;
 	}
-	return false;
+	return true;
 }
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 0724b2a..6be3f6d 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -119,6 +119,8 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 		case CT_Function_Fwd:
 		case CT_Operator:
 		case CT_Operator_Fwd:
+		case CT_Operator_Member:
+		case CT_Operator_Member_Fwd:
 		case CT_Struct:
 		case CT_Struct_Fwd:
 			return;
@@ -310,7 +312,7 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "using namespace $S;  %S", self->Name, self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "using namespace %S;\n", self->Name );
 }
@@ -334,8 +336,17 @@ void code_append( Code self, Code other )
 	GEN_ASSERT_MSG(self != other, "Attempted to recursively append Code AST to itself.");
 
 	if ( other->Parent != nullptr )
+	{
 		other = code_duplicate(other);
 
+		// The copy is not within the list the original is in.
+		if ( ! code_is_body(other) )
+		{
+			other->Prev = NullCode;
+			other->Next = NullCode;
+		}
+	}
+
 	other->Parent = self;
 
 	if ( self->Front == nullptr )
@@ -466,6 +477,9 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
+	if ( body->Back == nullptr )
+		return NullCode;
+
 	return body->Back->Next;
 }
 inline
@@ -490,6 +504,11 @@ void class_add_interface( CodeClass self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentType = type;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
@@ -511,7 +530,10 @@ void params_append( CodeParams appendee, CodeParams other )
 	Code entry = cast(Code, other);
 
 	if ( entry->Parent != nullptr )
-		entry = code_duplicate( entry );
+	{
+		entry       = code_duplicate( entry );
+		entry->Next = NullCode;
+	}
 
 	entry->Parent = self;
 
@@ -532,14 +554,8 @@ CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
 	CodeParams param = self;
-	do
-	{
-		if ( ++ param != nullptr )
-			return NullCode;
-
+	while ( param != nullptr && idx -- > 0 )
 		param = cast(CodeParams, cast(Code, param)->Next);
-	}
-	while ( --idx );
 
 	return param;
 }
@@ -709,6 +725,11 @@ void struct_add_interface(CodeStruct self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentType = type;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
@@ -728,7 +749,7 @@ CodeBody def_body( CodeType type )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
-- 
2.43.0


From 3e2526b34dbb128bdef1348eaada18bd7f4a1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 18/53] fix: parser: bound the specifier and constructor
 look-ahead, keep fused attributes, find struct-returning functions

---
 base/components/parser.cpp | 50 +++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5f45a44..632aab3 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -659,7 +659,7 @@ CodeAttributes parse_attributes()
 				eat( Tok_Paren_Open );
 
 				s32 level = 0;
-				while (left && currtok.Type != Tok_Paren_Close && level == 0)
+				while (left && (currtok.Type != Tok_Paren_Close || level > 0))
 				{
 					if (currtok.Type == Tok_Paren_Open)
 						++ level;
@@ -1042,6 +1042,13 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers == count_of(specs_found) )
+					{
+						log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
+
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -1061,15 +1068,15 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if ( attributes )
 					{
 						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len );
-						strbuilder_append_fmt( & fused, "%SB %SB", attributes->Content, more_attributes->Content );
+						strbuilder_append_fmt( & fused, "%S %S", attributes->Content, more_attributes->Content );
 
 						Str attrib_name     = strbuilder_to_str(fused);
 						attributes->Name    = cache_str( attrib_name );
 						attributes->Content = attributes->Name;
 						// <Attributes> <Specifiers> <Attributes>
 					}
-
-					attributes = more_attributes;
+					else
+						attributes = more_attributes;
 				}
 
 				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
@@ -1183,6 +1190,11 @@ Code parse_complicated_definition( TokType which )
 			had_def = level == 0;
 		}
 
+		// A parameter list, unlike an attribute's arguments, ends the declarator.
+		if ( level == 0 && tokens.Arr[ idx ].Type == Tok_Paren_Close && idx + 1 < array_num(tokens.Arr)
+		&&	( tokens.Arr[ idx + 1 ].Type == Tok_BraceCurly_Open || tok_is_specifier(tokens.Arr[ idx + 1 ]) ) )
+			had_paren = true;
+
 		b32 found_fn_def = had_def && had_paren;
 
 		if ( level == 0 && (tokens.Arr[ idx ].Type == Tok_Statement_End || found_fn_def) )
@@ -1767,7 +1779,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Import: {
 				// import ...
-				log_failure( "gen::%s: This function is not implemented" );
+				log_failure( "gen::%s: This function is not implemented", stringize(parse_global_nspace) );
 				return InvalidCode;
 			}
 			break;
@@ -1827,6 +1839,13 @@ CodeBody parse_global_nspace( CodeType which )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers == count_of(specs_found) )
+					{
+						log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
+
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -1868,7 +1887,7 @@ CodeBody parse_global_nspace( CodeType which )
 					{
 						Token tok = _ctx->parser.Tokens.Arr[ idx ];
 
-						if ( tok.Type == Tok_Identifier )
+						if ( tok.Type == Tok_Identifier && idx + 1 < array_num(_ctx->parser.Tokens.Arr) )
 						{
 							idx++;
 							tok = _ctx->parser.Tokens.Arr[ idx ];
@@ -1936,16 +1955,18 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	TokArray tokens = _ctx->parser.Tokens;
 
 	s32   idx = tokens.Idx;
-	Token nav = tokens.Arr[ idx ];
-	for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[ idx ] )
+	Token nav = NullToken;
+	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
+		nav = tokens.Arr[ idx ];
 		if ( nav.Text.Ptr[0] == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
 			s32 capture_level  = 0;
 			s32 template_level = 0;
-			for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[idx] )
+			for ( ; idx < array_num(tokens.Arr); idx++ )
 			{
+				nav = tokens.Arr[ idx ];
 				if (nav.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
@@ -1969,8 +1990,15 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 		if ( nav.Type == Tok_Paren_Open )
 			break;
+
+		// The statement ended without a parameter list.
+		if ( nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open || nav.Type == Tok_BraceCurly_Close )
+			return result;
 	}
 
+	if ( idx >= array_num(tokens.Arr) || idx - 2 < tokens.Idx )
+		return result;
+
 	-- idx;
 	Token tok_right = tokens.Arr[idx];
 	Token tok_left  = NullToken;
@@ -1986,14 +2014,14 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	// <Attributes> <Specifiers> ... <Identifier>
 
 	bool possible_destructor = false;
-	if ( tok_left.Type == Tok_Operator && tok_left.Text.Ptr[0] == '~')
+	if ( tok_left.Type == Tok_Operator && tok_left.Text.Ptr[0] == '~' && idx > tokens.Idx )
 	{
 		possible_destructor = true;
 		-- idx;
 		tok_left = tokens.Arr[idx];
 	}
 
-	if ( tok_left.Type != Tok_Access_StaticSymbol )
+	if ( tok_left.Type != Tok_Access_StaticSymbol || idx == tokens.Idx )
 		return result;
 
 	-- idx;
-- 
2.43.0


From b827f40f5b9c97adc4fbf6360ceb38670d4b13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 19/53] fix: parser: look-ahead stays within the tokens, -> is
 not a template close, macros of a parameter are its own, arrays after a
 comma, enum values with commas, struct-returning declarations

---
 base/components/lexer.cpp  |   6 +-
 base/components/parser.cpp | 157 ++++++++++++++++++++++++-------------
 2 files changed, 105 insertions(+), 58 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index b36f8ed..b62670d 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -24,8 +24,10 @@ internal
 Token* lex_at(TokArray self, s32 idx)
 {
 	local_persist thread_local Token null_token;
-	Token reset = NullToken;
-	null_token  = reset;
+	Token reset     = NullToken;
+	Str   no_text   = { "\0", 0 };  // Readable as an empty text.
+	null_token      = reset;
+	null_token.Text = no_text;
 	return idx >= 0 && idx < scast( s32, array_num(self.Arr)) ? & self.Arr[idx] : & null_token;
 }
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 632aab3..ca85050 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -42,11 +42,11 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 
 	// Either may be past the last token.
 	Token last_valid  = * lex_current(& ctx.Tokens, true);
-	if ( last_valid.Text.Ptr == nullptr )
+	if ( last_valid.Text.Len == 0 )
 		last_valid = * array_back(ctx.Tokens.Arr);
 
 	Token scope_start = ctx.Scope->Start;
-	if ( scope_start.Text.Ptr == nullptr )
+	if ( scope_start.Text.Len == 0 )
 		scope_start = last_valid;
 
 	sptr        length  = scope_start.Text.Len;
@@ -297,7 +297,7 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		{
 			move_fwd();
 
-			while ( tokleft && ( scanner[0] != '"' || *( scanner - 1 ) == '\\' ) )
+			while ( tokleft && scanner[0] != '"' )
 			{
 				if ( scanner[0] == '\\' && tokleft > 1 )
 				{
@@ -324,12 +324,17 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		{
 			move_fwd();
 
-			while ( tokleft
-			&& ( scanner[0] != '\''
-				|| ( *(scanner -1 ) == '\\' )
-			) )
+			while ( tokleft && scanner[0] != '\'' )
 			{
-				move_fwd();
+				if ( scanner[0] == '\\' && tokleft > 1 )
+				{
+					scanner += 2;
+					tokleft -= 2;
+				}
+				else
+				{
+					move_fwd();
+				}
 			}
 
 			// Skip the closing '
@@ -1220,23 +1225,23 @@ Code parse_complicated_definition( TokType which )
 		return result;
 	}
 
-	Token tok = tokens.Arr[ idx - 1 ];
+	Token tok = * lex_at( tokens, idx - 1 );
 	if ( tok_is_specifier(tok) && spec_is_trailing( str_to_specifier( tok.Text)) )
 	{
 		// <which> <type_identifier>(...) <specifier> ...;
 
 		s32   spec_idx = idx - 1;
-		Token spec     = tokens.Arr[spec_idx];
+		Token spec     = * lex_at( tokens, spec_idx );
 		while ( tok_is_specifier(spec) && spec_is_trailing( str_to_specifier( spec.Text)) )
 		{
 			-- spec_idx;
-			spec = tokens.Arr[spec_idx];
+			spec = * lex_at( tokens, spec_idx );
 		}
 
-		if ( tokens.Arr[spec_idx].Type == Tok_Paren_Close )
+		if ( lex_at( tokens, spec_idx )->Type == Tok_Paren_Close )
 		{
 			// Forward declaration with trailing specifiers for a procedure
-			tok = tokens.Arr[spec_idx];
+			tok = * lex_at( tokens, spec_idx );
 
 			Code result = parse_operator_function_or_variable( false, NullCode, NullCode );
 			// <Attributes> <Specifiers> <ReturnType/ValueType> <operator <Op>, or Name> ...
@@ -1250,7 +1255,7 @@ Code parse_complicated_definition( TokType which )
 	}
 	if ( tok.Type == Tok_Identifier )
 	{
-		tok = tokens.Arr[ idx - 2 ];
+		tok = * lex_at( tokens, idx - 2 );
 		bool is_indirection = tok.Type == Tok_Ampersand || tok.Type == Tok_Star;
 		bool ok_to_parse    = false;
 
@@ -1271,15 +1276,23 @@ Code parse_complicated_definition( TokType which )
 			parser_pop(& _ctx->parser);
 			return (Code) result;
 		}
-		else if ( tok.Type == Tok_Identifier && tokens.Arr[ idx - 3 ].Type == which )
+		else if ( which == Tok_Decl_Enum && tok.Type == Tok_Decl_Class && ( idx - 3 ) == tokens.Idx )
+		{
+			// Its a forward declaration of an enum class
+			// <enum> <class> <type_identifier>;
+			Code result = parse_forward_or_definition( which, is_inplace );
+			parser_pop(& _ctx->parser);
+			return result;
+		}
+		else if ( tok.Type == Tok_Identifier && lex_at( tokens, idx - 3 )->Type == which )
 		{
 			// Its a variable with type ID using <which> namespace.
 			// <which> <type_identifier> <identifier>;
 			ok_to_parse = true;
 		}
 		else if ( tok.Type == Tok_Assign_Classifer
-		&& (	( tokens.Arr[idx - 5].Type == which && tokens.Arr[idx - 4].Type == Tok_Decl_Class )
-			||	( tokens.Arr[idx - 4].Type == which))
+		&& (	( lex_at( tokens, idx - 5 )->Type == which && lex_at( tokens, idx - 4 )->Type == Tok_Decl_Class )
+			||	( lex_at( tokens, idx - 4 )->Type == which))
 		)
 		{
 			// Its a forward declaration of an enum
@@ -1311,11 +1324,11 @@ Code parse_complicated_definition( TokType which )
 	}
 	else if ( tok.Type >= Tok_Type_Unsigned && tok.Type <= Tok_Type_MS_W64 )
 	{
-		tok = tokens.Arr[ idx - 2 ];
+		tok = * lex_at( tokens, idx - 2 );
 
 		if ( tok.Type != Tok_Assign_Classifer
-		|| (	( tokens.Arr[idx - 5].Type != which && tokens.Arr[idx - 4].Type != Tok_Decl_Class )
-			&&	( tokens.Arr[idx - 4].Type != which))
+		|| (	( lex_at( tokens, idx - 5 )->Type != which && lex_at( tokens, idx - 4 )->Type != Tok_Decl_Class )
+			&&	( lex_at( tokens, idx - 4 )->Type != which))
 		)
 		{
 			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
@@ -1338,6 +1351,14 @@ Code parse_complicated_definition( TokType which )
 		parser_pop(& _ctx->parser);
 		return result;
 	}
+	else if ( tok.Type == Tok_Paren_Close )
+	{
+		// Forward declaration of a procedure
+		Code result = parse_operator_function_or_variable( false, NullCode, NullCode );
+		// <which> <type_identifier> <identifier> ( ... );
+		parser_pop(& _ctx->parser);
+		return result;
+	}
 	else if ( tok.Type == Tok_BraceSquare_Close )
 	{
 		// Its an array definition
@@ -1377,9 +1398,9 @@ Code parse_assignment_expression()
 			level++;
 		if (currtok.Type == Tok_BraceCurly_Close )
 			level--;
-		if (currtok.Type == Tok_Paren_Open)
+		if (currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceSquare_Open)
 			level++;
-		else if (currtok.Type == Tok_Paren_Close)
+		else if (currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceSquare_Close)
 			level--;
 
 		eat( currtok.Type );
@@ -1972,7 +1993,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 				if (nav.Text.Ptr[ 0 ] == '>')
 					-- template_level;
-				if (nav.Type == Tok_Operator && nav.Text.Ptr[1] == '>')
+				if (nav.Type == Tok_Operator && nav.Text.Len > 1 && nav.Text.Ptr[0] == '>' && nav.Text.Ptr[1] == '>')
 					-- template_level;
 
 				if ( nav.Type == Tok_Paren_Open)
@@ -2038,7 +2059,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 		if (tok_left.Text.Ptr[ 0 ] == '>')
 			-- template_level;
-		if (tok_left.Type == Tok_Operator && tok_left.Text.Ptr[1] == '>')
+		if (tok_left.Type == Tok_Operator && tok_left.Text.Len > 1 && tok_left.Text.Ptr[0] == '>' && tok_left.Text.Ptr[1] == '>')
 			-- template_level;
 
 		if ( template_level != 0 && tok_left.Type == Tok_Paren_Open)
@@ -2110,7 +2131,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
 		{
-			bool is_destructor = str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parser_parse_destructor"));
+			bool is_destructor = _ctx->parser.Scope->Prev && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parser_parse_destructor"));
 			if (is_destructor)
 			{
 				name.Text.Len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )name.Text.Ptr;
@@ -2212,10 +2233,7 @@ CodeOperator parse_operator_after_ret_type(
 	eat( Tok_Decl_Operator );
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator
 
-	if ( ! left && currtok.Type != Tok_Operator
-		&& currtok.Type != Tok_Star
-		&& currtok.Type != Tok_Ampersand
-		&& currtok.Type != Tok_Ampersand_DBL )
+	if ( ! left )
 	{
 		log_failure( "Expected operator after 'operator' keyword\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
@@ -2426,10 +2444,10 @@ CodeOperator parse_operator_after_ret_type(
 
 				s32 idx = _ctx->parser.Tokens.Idx + 1;
 				{
-					while ( _ctx->parser.Tokens.Arr[ idx ].Type == Tok_NewLine )
+					while ( lex_at( _ctx->parser.Tokens, idx )->Type == Tok_NewLine )
 						idx++;
 				}
-				Token next = _ctx->parser.Tokens.Arr[idx];
+				Token next = * lex_at( _ctx->parser.Tokens, idx );
 				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
 				{
 					eat(Tok_Operator);
@@ -2450,10 +2468,10 @@ CodeOperator parse_operator_after_ret_type(
 
 				s32 idx = _ctx->parser.Tokens.Idx + 1;
 				{
-					while ( _ctx->parser.Tokens.Arr[ idx ].Type == Tok_NewLine )
+					while ( lex_at( _ctx->parser.Tokens, idx )->Type == Tok_NewLine )
 						idx++;
 				}
-				Token next = _ctx->parser.Tokens.Arr[idx];
+				Token next = * lex_at( _ctx->parser.Tokens, idx );
 				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
 				{
 					eat(Tok_Operator);
@@ -2612,7 +2630,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		if ( tok.Type == Tok_Identifier )
 		{
 			idx++;
-			tok = _ctx->parser.Tokens.Arr[ idx ];
+			tok = * lex_at( _ctx->parser.Tokens, idx );
 			if ( tok.Type == Tok_Access_StaticSymbol )
 				continue;
 
@@ -2642,7 +2660,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		//                  (         350.0f    ,         <---  Could be the scenario
 		// Example : <Capture_Start> <Value> <Comma>
 		//                 idx         +1      +2
-		bool detected_comma = _ctx->parser.Tokens.Arr[ _ctx->parser.Tokens.Idx + 2 ].Type == Tok_Comma;
+		bool detected_comma = lex_at( _ctx->parser.Tokens, _ctx->parser.Tokens.Idx + 2 )->Type == Tok_Comma;
 
 		b32   detected_non_varadic_unpaired_param = detected_comma && nexttok.Type != Tok_Varadic_Argument;
 		if (! detected_non_varadic_unpaired_param && nexttok.Type ==  Tok_Preprocess_Macro_Expr) for( s32 break_scope = 0; break_scope == 0; ++ break_scope)
@@ -2670,7 +2688,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 			}
 			++ idx; // Will incremnt to possible comma position
 
-			if ( _ctx->parser.Tokens.Arr[ idx ].Type != Tok_Comma )
+			if ( lex_at( _ctx->parser.Tokens, idx )->Type != Tok_Comma )
 				break;
 
 			detected_non_varadic_unpaired_param = true;
@@ -2860,14 +2878,14 @@ CodeParams parse_params( bool use_template_capture )
 
 			s32 capture_level  = 0;
 			s32 template_level = 0;
-			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
+			while ( left && ( ( ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams() ) || capture_level > 0 || template_level > 0 ) )
 			{
 				if (currtok.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
 				if (currtok.Text.Ptr[ 0 ] == '>')
 					-- template_level;
-				if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+				if (currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[0] == '>' && currtok.Text.Ptr[1] == '>')
 					-- template_level;
 
 				if ( currtok.Type == Tok_Paren_Open)
@@ -2893,7 +2911,8 @@ CodeParams parse_params( bool use_template_capture )
 	if ( name.Text.Len > 0 )
 		result->Name = cache_str( name.Text );
 
-	result->ValueType = type;
+	result->PostNameMacro = post_name_macro;
+	result->ValueType     = type;
 
 	if ( value )
 		result->Value = value;
@@ -2907,6 +2926,9 @@ CodeParams parse_params( bool use_template_capture )
 
 		Code type  = { nullptr };
 		Code value = { nullptr };
+		macro           = NullCode;
+		post_name_macro = NullCode;
+		name            = NullToken;
 
 		if ( check( Tok_Varadic_Argument ) )
 		{
@@ -2969,17 +2991,17 @@ CodeParams parse_params( bool use_template_capture )
 
 				s32 capture_level  = 0;
 				s32 template_level = 0;
-				while ( (left
-				&& currtok.Type != Tok_Comma
+				while ( left
+				&& ( ( currtok.Type != Tok_Comma
 				&& template_level >= 0
-				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
+				&& CheckEndParams() ) || capture_level > 0 || template_level > 0 ) )
 				{
 					if (currtok.Text.Ptr[ 0 ] == '<')
 						++ template_level;
 
 					if (currtok.Text.Ptr[ 0 ] == '>')
 						-- template_level;
-					if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+					if (currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[0] == '>' && currtok.Text.Ptr[1] == '>')
 						-- template_level;
 
 					if ( currtok.Type == Tok_Paren_Open)
@@ -3131,7 +3153,7 @@ Code parse_simple_preprocess( TokType which )
 		// <Macro> { <Body> }
 
 		// TODO(Ed): Review this?
-		Str prev_proc = _ctx->parser.Scope->Prev->ProcName;
+		Str prev_proc = _ctx->parser.Scope->Prev ? _ctx->parser.Scope->Prev->ProcName : txt("");
 		if ( macro->Type == MT_Typename && c_str_compare_len( prev_proc.Ptr, "parser_parse_typedef", prev_proc.Len ) != 0 )
 		{
 			if ( check( Tok_Statement_End ))
@@ -3152,14 +3174,14 @@ Code parse_simple_preprocess( TokType which )
 	{
 		// If the macro is just a macro in the body of an AST it may have a semi-colon for the user to close on purpsoe
 		// (especially for functional macros)
-		Str calling_proc = _ctx->parser.Scope->Prev->ProcName;
+		Str calling_proc = _ctx->parser.Scope->Prev ? _ctx->parser.Scope->Prev->ProcName : txt("");
 
-		if (str_contains(_ctx->parser.Scope->Prev->ProcName, txt("parser_parse_enum")))
+		if (str_contains(calling_proc, txt("parser_parse_enum")))
 		{
 			// Do nothing
 			goto Leave_Scope_Early;
 		}
-		else if (macro && macro->Type == MT_Typename && str_contains(_ctx->parser.Scope->Prev->ProcName, txt("parser_parse_typedef")))
+		else if (macro && macro->Type == MT_Typename && str_contains(calling_proc, txt("parser_parse_typedef")))
 		{
 			if ( peektok.Type == Tok_Statement_End )
 			{
@@ -3267,7 +3289,7 @@ void parse_template_args( Token* token )
 
 			if ( currtok.Text.Ptr[ 0 ] == '>' )
 				level--;
-			if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+			if ( currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[0] == '>' && currtok.Text.Ptr[1] == '>')
 				level--;
 
 			eat( currtok.Type );
@@ -3426,7 +3448,16 @@ CodeVar parse_variable_after_name(
 	result->InlineCmt    = inline_cmt;
 
 	if (array_expr)
+	{
+		if (type == nullptr)
+		{
+			// A comma-proceeding variable has no type of its own, only the extent.
+			type              = (CodeTypename) make_code();
+			type->Type        = CT_Typename;
+			result->ValueType = type;
+		}
 		type->ArrExpr = array_expr;
+	}
 
 	if ( next_var ) {
 		result->NextVar         = next_var;
@@ -3463,13 +3494,11 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( specifiers->NumEntries && specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( specifiers == nullptr || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
 						, parser_to_strbuilder(_ctx->parser) );
-
-						specifiers_append(specifiers, spec );
 					}
 				break;
 
@@ -3483,7 +3512,6 @@ CodeVar parse_variable_declaration_list()
 					log_failure( "Error, invalid specifier '%S' proceeding comma\n"
 					"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%S"
 					, currtok.Text, strbuilder_to_str( parser_to_strbuilder(_ctx->parser)) );
-					continue;
 				}
 				break;
 			}
@@ -3512,7 +3540,7 @@ CodeVar parse_variable_declaration_list()
 		else
 		{
 			last_var->NextVar         = var;
-			last_var->NextVar->Parent = cast(Code, var);
+			last_var->NextVar->Parent = cast(Code, last_var);
 			last_var                  = var;
 		}
 	}
@@ -3968,7 +3996,10 @@ CodeEnum parser_parse_enum( bool inplace_def )
 				{
 					Token entry = currtok;
 
-					eat( Tok_Identifier);
+					if ( ! eat( Tok_Identifier) ) {
+						member = InvalidCode;
+						break;
+					}
 					// <Name>
 
 					if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '=' )
@@ -3976,7 +4007,14 @@ CodeEnum parser_parse_enum( bool inplace_def )
 						eat( Tok_Operator );
 						// <Name> =
 
-						while ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) {
+						s32 level = 0;
+						while ( left && ( level > 0 || ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) ) )
+						{
+							if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+								level++;
+							else if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+								level--;
+
 							eat( currtok.Type );
 						}
 					}
@@ -5426,7 +5464,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 		body = cast(CodeBody, make_code());
 		body->Type = CT_Union_Body;
 
-		while ( ! check_noskip( Tok_BraceCurly_Close ) )
+		while ( left && ! check_noskip( Tok_BraceCurly_Close ) )
 		{
 			if ( currtok_noskip.Type == Tok_Preprocess_Hash )
 				eat( Tok_Preprocess_Hash );
@@ -5504,6 +5542,13 @@ CodeUnion parser_parse_union( bool inplace_def )
 				break;
 			}
 
+			if ( member == Code_Invalid )
+			{
+				log_failure( "Failed to parse member\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
+
 			if ( member )
 				body_append(body, member );
 		}
-- 
2.43.0


From c2588604205ae54db89b669d93d9fa12c77251b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 20/53] fix: standard, GNU and MSVC attributes reach the
 parser, nested brackets in array extents and attributes, qualified using,
 using comments

---
 base/components/code_serialization.cpp |  8 +++--
 base/components/lexer.cpp              | 19 +++++++++++-
 base/components/parser.cpp             | 43 +++++++++++++++++++-------
 base/components/parser_types.hpp       |  1 +
 4 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 3ebe081..f6cd3bc 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1226,12 +1226,14 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
+	strbuilder_append_fmt( result, "using %S", self->Name );
+
 	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+		strbuilder_append_fmt( result, " %SB", attributes_to_strbuilder(self->Attributes) );
 
 	if ( self->UnderlyingType )
 	{
-		strbuilder_append_fmt( result, "using %S = %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, " = %SB", typename_to_strbuilder(self->UnderlyingType) );
 
 		if ( self->UnderlyingType->ArrExpr )
 		{
@@ -1248,7 +1250,7 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 		strbuilder_append_str( result, txt(";") );
 	}
 	else
-		strbuilder_append_fmt( result, "using %S;", self->Name );
+		strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S\n", self->InlineCmt->Content );
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index b62670d..c2dc93d 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -515,7 +515,7 @@ void lex_found_token( LexContext* ctx )
 	if (type <= Tok_Access_Public && type >= Tok_Access_Private ) {
 		ctx->token.Flags |= TF_AccessSpecifier;
 	}
-	if ( type > Tok___Attributes_Start ) {
+	if ( type > Tok___Attributes_Start || type == Tok_Decl_GNU_Attribute || type == Tok_Decl_MSVC_Attribute ) {
 		ctx->token.Flags |= TF_Attribute;
 	}
 	if ( type == Tok_Decl_Extern_Linkage )
@@ -595,6 +595,7 @@ TokArray lex( Str content )
 	c.content = content;
 	c.left    = content.Len;
 	c.scanner = content.Ptr;
+	c.within_attribute = false;
 
 	char const* word        = c.scanner;
 	s32         word_length = 0;
@@ -807,6 +808,14 @@ TokArray lex( Str content )
 						c.token.Type     = Tok_Operator;
 						move_forward();
 					}
+					else if ( (* ctx->scanner) == '[' )
+					{
+						c.token.Text.Len  = 2;
+						c.token.Type      = Tok_Attribute_Open;
+						c.token.Flags     = TF_Attribute;
+						c.within_attribute = true;
+						move_forward();
+					}
 				}
 				goto FoundToken;
 			}
@@ -818,6 +827,14 @@ TokArray lex( Str content )
 
 				if (c.left)
 					move_forward();
+
+				if ( c.within_attribute && (* ctx->scanner) == ']' )
+				{
+					c.token.Text.Len   = 2;
+					c.token.Type       = Tok_Attribute_Close;
+					c.within_attribute = false;
+					move_forward();
+				}
 				goto FoundToken;
 			}
 			case '(':
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index ca85050..3a2ef10 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -545,8 +545,14 @@ Code parse_array_decl()
 
 		Token untyped_tok = currtok;
 
-		while ( left && currtok.Type != Tok_BraceSquare_Close )
+		s32 level = 0;
+		while ( left && ( currtok.Type != Tok_BraceSquare_Close || level > 0 ) )
 		{
+			if ( currtok.Type == Tok_BraceSquare_Open )
+				level++;
+			else if ( currtok.Type == Tok_BraceSquare_Close )
+				level--;
+
 			eat( currtok.Type );
 		}
 
@@ -624,8 +630,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __attribute__((
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __attribute__(( <Content>
@@ -642,8 +653,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __declspec(
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __declspec( <Content>
@@ -1284,6 +1300,15 @@ Code parse_complicated_definition( TokType which )
 			parser_pop(& _ctx->parser);
 			return result;
 		}
+		else if ( tok_is_attribute( * lex_at( tokens, tokens.Idx + 1 ) )
+		&&	( tok.Type == Tok_Attribute_Close || tok.Type == Tok_Paren_Close || tok_is_attribute( tok ) ) )
+		{
+			// Its a forward declaration with attributes
+			// <which> <Attributes> <type_identifier>;
+			Code result = parse_forward_or_definition( which, is_inplace );
+			parser_pop(& _ctx->parser);
+			return result;
+		}
 		else if ( tok.Type == Tok_Identifier && lex_at( tokens, idx - 3 )->Type == which )
 		{
 			// Its a variable with type ID using <which> namespace.
@@ -5611,9 +5636,8 @@ CodeUsing parser_parse_using()
 		// <ModuleFlags> using namespace
 	}
 
-	name = currtok;
+	name = parse_identifier(nullptr);
 	_ctx->parser.Scope->Name = name.Text;
-	eat( Tok_Identifier );
 	// <ModuleFlags> using <namespace> <Name>
 
 	if ( ! is_namespace )
@@ -5623,9 +5647,6 @@ CodeUsing parser_parse_using()
 		
 		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ))
 		{
-			attributes = parse_attributes();
-			// <ModuleFlags> using <Name> <Attributes>
-
 			eat( Tok_Operator );
 			// <ModuleFlags> using <Name> <Attributes> =
 
@@ -5668,11 +5689,11 @@ CodeUsing parser_parse_using()
 
 		if ( attributes )
 			result->Attributes = attributes;
-
-		if ( inline_cmt )
-			result->InlineCmt = inline_cmt;
 	}
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 2ccb543..eebdb3f 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -106,6 +106,7 @@ struct LexContext
 	s32             column;
 	// StringTable     defines;
 	Token           token;
+	bool            within_attribute; // [[ has not been closed yet
 };
 
 struct StackNode
-- 
2.43.0


From ca50b1f6e738d754533121858f200086f6ca881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 21/53] fix: parser: exported declarations keep their export,
 no endless loops on stray tokens, look-ahead text stays inside the content

---
 base/components/inlines.hpp   |  3 +-
 base/components/interface.cpp |  4 +++
 base/components/lexer.cpp     | 15 ++++++++-
 base/components/parser.cpp    | 59 +++++++++++++++++++++++++++++------
 4 files changed, 70 insertions(+), 11 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 6be3f6d..88a9d86 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -448,7 +448,8 @@ void body_append( CodeBody self, Code other )
 	GEN_ASSERT(self);
 	GEN_ASSERT(other);
 
-	if (code_is_body(other)) {
+	// An export block isn't flattened as it has its own scope.
+	if (code_is_body(other) && other->Type != CT_Export_Body) {
 		body_append_body( self, cast(CodeBody, other) );
 		return;
 	}
diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 0b9c927..dc06e6e 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -464,6 +464,10 @@ AllocatorInfo get_cached_str_allocator( s32 str_length )
 // Will either make or retrive a code string.
 StrCached cache_str( Str str )
 {
+	// A slice whose end precedes its start has no text.
+	if (str.Len < 0)
+		str.Len = 0;
+
 	if (str.Len > _ctx->Max_StrCacheLength) {
 		// Do not cache the string, just shove into the arena and and return it.
 		Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index c2dc93d..842557e 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -24,11 +24,24 @@ internal
 Token* lex_at(TokArray self, s32 idx)
 {
 	local_persist thread_local Token null_token;
+	if ( idx >= 0 && idx < scast( s32, array_num(self.Arr)) )
+		return & self.Arr[idx];
+
 	Token reset     = NullToken;
 	Str   no_text   = { "\0", 0 };  // Readable as an empty text.
 	null_token      = reset;
 	null_token.Text = no_text;
-	return idx >= 0 && idx < scast( s32, array_num(self.Arr)) ? & self.Arr[idx] : & null_token;
+	if ( array_num(self.Arr) && idx < 0 )
+	{
+		null_token.Text.Ptr = self.Arr[0].Text.Ptr;
+	}
+	else if ( array_num(self.Arr) )
+	{
+		// The content is null-terminated (see: lex)
+		Token* last         = & self.Arr[ array_num(self.Arr) - 1 ];
+		null_token.Text.Ptr = last->Text.Ptr + last->Text.Len;
+	}
+	return & null_token;
 }
 
 Token* lex_current(TokArray* self, bool skip_formatting )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3a2ef10..435ef17 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -852,6 +852,8 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 		if ( currtok_noskip.Type == Tok_Preprocess_Hash )
 			eat( Tok_Preprocess_Hash );
 
+		s32 start_idx = _ctx->parser.Tokens.Idx;
+
 		switch ( currtok_noskip.Type )
 		{
 			case Tok_Statement_End: {
@@ -1156,7 +1158,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			break;
 		}
 
-		if ( member == Code_Invalid )
+		if ( member == Code_Invalid || _ctx->parser.Tokens.Idx == start_idx )
 		{
 			log_failure( "Failed to parse member\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
@@ -1685,6 +1687,15 @@ CodeBody parse_global_nspace( CodeType which )
 		if ( currtok_noskip.Type == Tok_Preprocess_Hash )
 			eat( Tok_Preprocess_Hash );
 
+		s32 start_idx   = _ctx->parser.Tokens.Idx;
+		b32 is_exported = false;
+		if ( currtok_noskip.Type == Tok_Module_Export && nexttok_noskip.Type != Tok_BraceCurly_Open )
+		{
+			eat( Tok_Module_Export );
+			is_exported = true;
+			// export <Declaration>
+		}
+
 		b32 macro_found = false;
 
 		switch ( currtok_noskip.Type )
@@ -1969,6 +1980,16 @@ CodeBody parse_global_nspace( CodeType which )
 			return InvalidCode;
 		}
 
+		if ( _ctx->parser.Tokens.Idx == start_idx )
+		{
+			log_failure( "Nothing could be parsed\nToken: %SB\nContext:\n%SB", tok_to_strbuilder(currtok_noskip), parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
+		if ( is_exported )
+			member->ModuleFlags = ModuleFlag_Export;
+
 		// log_fmt("Global Body Member: %s", member->debug_str());
 		body_append(result, member );
 	}
@@ -3702,7 +3723,7 @@ CodeDefine parser_parse_define()
 	// #define <Name>
 
 	Macro* macro = lookup_macro(define->Name);
-	if (macro_is_functional(* macro)) {
+	if (macro && macro_is_functional(* macro)) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
 
@@ -3712,7 +3733,7 @@ CodeDefine parser_parse_define()
 		params->Type = CT_Parameters_Define;
 
 		if ( left && currtok.Type != Tok_Paren_Close ) {
-			params->Name = currtok.Text;
+			params->Name = cache_str( currtok.Text );
 			params->NumEntries ++;
 
 			eat( Tok_Preprocess_Define_Param );
@@ -3725,7 +3746,7 @@ CodeDefine parser_parse_define()
 
 			CodeDefineParams next_param = (CodeDefineParams) make_code();
 			next_param->Type = CT_Parameters_Define;
-			next_param->Name = currtok.Text;
+			next_param->Name = cache_str( currtok.Text );
 			define_params_append(params, next_param);
 
 			// #define  <Name> (  <param>, <next_param> ...
@@ -4137,6 +4158,10 @@ internal inline
 CodeBody parser_parse_export_body()
 {
 	push_scope();
+
+	eat( Tok_Module_Export );
+	// export
+
 	CodeBody result = parse_global_nspace( CT_Export_Body );
 	parser_pop(& _ctx->parser);
 	return result;
@@ -4160,7 +4185,12 @@ CodeExtern parser_parse_extern_link()
 	// extern
 
 	Token name = currtok;
-	eat( Tok_String );
+	if ( ! eat( Tok_String ) || name.Text.Len < 2 )
+	{
+		log_failure( "Expected a linkage name after extern\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
 	// extern "<Name>"
 
 	// Strip the surrounding quotes
@@ -4377,12 +4407,21 @@ CodeNS parser_parse_namespace()
 {
 	push_scope();
 
+	ModuleFlag mflags = ModuleFlag_None;
+
+	if ( check(Tok_Module_Export) )
+	{
+		mflags = ModuleFlag_Export;
+		eat( Tok_Module_Export );
+	}
+	// <ModuleFlags>
+
 	eat( Tok_Decl_Namespace );
-	// namespace
+	// <ModuleFlags> namespace
 
 	Token name = parse_identifier(nullptr);
 	_ctx->parser.Scope->Name = name.Text;
-	// namespace <Name>
+	// <ModuleFlags> namespace <Name>
 
 	CodeBody body = parse_global_nspace( CT_Namespace_Body );
 	if ( cast(Code, body) == Code_Invalid ) {
@@ -4395,6 +4434,7 @@ CodeNS parser_parse_namespace()
 	result       = (CodeNS) make_code();
 	result->Type = CT_Namespace;
 	result->Name = cache_str( name.Text );
+	result->ModuleFlags = mflags;
 
 	result->Body = body;
 
@@ -5494,7 +5534,8 @@ CodeUnion parser_parse_union( bool inplace_def )
 			if ( currtok_noskip.Type == Tok_Preprocess_Hash )
 				eat( Tok_Preprocess_Hash );
 
-			Code member = { nullptr };
+			s32  start_idx = _ctx->parser.Tokens.Idx;
+			Code member    = { nullptr };
 			switch ( currtok_noskip.Type )
 			{
 				case Tok_NewLine:
@@ -5567,7 +5608,7 @@ CodeUnion parser_parse_union( bool inplace_def )
 				break;
 			}
 
-			if ( member == Code_Invalid )
+			if ( member == Code_Invalid || _ctx->parser.Tokens.Idx == start_idx )
 			{
 				log_failure( "Failed to parse member\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
-- 
2.43.0


From f502c640833c5079169130df070019a182cc3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 22/53] fix: parser: formatting may separate any tokens, a
 failed expectation ends the parse, specifier lists are bounded, templates
 need a declaration, /*/ does not close a comment

---
 base/components/interface.parsing.cpp |   6 ++
 base/components/parser.cpp            | 108 ++++++++++++++++++++++----
 2 files changed, 99 insertions(+), 15 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d9eaee2..ae4d66e 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -67,6 +67,12 @@ CodeConstructor parse_constructor( Str def )
 		if (ignore_spec)
 			break;
 
+		if ( NumSpecifiers == count_of(specs_found) )
+		{
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			return InvalidCode;
+		}
+
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 435ef17..6f3c75f 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -90,19 +90,17 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 
 bool lex__eat(TokArray* self, TokType type )
 {
-	if ( array_num(self->Arr) - self->Idx <= 0 ) {
+	// Formatting between the tokens is of no interest unless its what is expected.
+	if ( type != Tok_NewLine && type != Tok_Comment )
+		lex_current( self, lex_skip_formatting );
+
+	if ( self->Idx >= scast( s32, array_num(self->Arr)) ) {
 		log_failure( "No tokens left.\n%SB", parser_to_strbuilder(_ctx->parser) );
 		return false;
 	}
 
 	Token at_idx = self->Arr[ self->Idx ];
 
-	if ( ( at_idx.Type == Tok_NewLine && type != Tok_NewLine )
-	||   ( at_idx.Type == Tok_Comment && type != Tok_Comment ) )
-	{
-		self->Idx ++;
-	}
-
 	b32 not_accepted  = at_idx.Type != type;
 	b32 is_identifier = at_idx.Type == Tok_Identifier;
 	if ( not_accepted )
@@ -122,6 +120,9 @@ bool lex__eat(TokArray* self, TokType type )
 			, parser_to_strbuilder(_ctx->parser)
 		);
 		GEN_DEBUG_TRAP();
+
+		// There is no recovery: whatever comes after is not to be mistaken for what was expected.
+		self->Idx = scast( s32, array_num(self->Arr));
 		return false;
 	}
 
@@ -349,11 +350,16 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		// Block comments
 		if ( tokleft > 1 && scanner[0] == '/' && scanner[1] == '*' )
 		{
+			// The asterisk that opens the comment is not part of what closes it.
+			scanner += 2;
+			tokleft -= 2;
+
 			while ( tokleft > 1 && !(scanner[0] == '*' && scanner[1] == '/') )
 				move_fwd();
 
-			scanner += 2;
-			tokleft -= 2;
+			s32 close_len = tokleft > 1 ? 2 : tokleft;
+			scanner += close_len;
+			tokleft -= close_len;
 
 			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
 			last_cut = rcast( sptr, scanner ) - rcast( sptr, raw_text.Ptr );
@@ -1485,6 +1491,10 @@ CodeFn parse_function_after_name(
 {
 	push_scope();
 	CodeParams params = parse_params(parser_use_parenthesis);
+	if ( cast(Code, params) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
 	// <Attributes> <Specifiers> <ReturnType> <Name> ( <Parameters> )
 
 	Code suffix_specs = NullCode;
@@ -2555,6 +2565,10 @@ CodeOperator parse_operator_after_ret_type(
 
 	// Parse Params
 	CodeParams params = parse_params(parser_use_parenthesis);
+	if ( cast(Code, params) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
 	if ( params == nullptr && op == Op_Multiply )
@@ -4253,6 +4267,12 @@ CodeFriend parser_parse_friend()
 			if ( spec == Spec_Const )
 				break;
 
+			if ( NumSpecifiers == count_of(specs_found) )
+			{
+				log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -4367,9 +4387,16 @@ CodeFn parser_parse_function()
 				return InvalidCode;
 		}
 
+		// Const is handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
+		if ( NumSpecifiers == count_of(specs_found) )
+		{
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4478,9 +4505,16 @@ CodeOperator parser_parse_operator()
 				return InvalidCode;
 		}
 
+		// Const is handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
+		if ( NumSpecifiers == count_of(specs_found) )
+		{
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4719,6 +4753,12 @@ CodeTemplate parser_parse_template()
 				if ( spec == Spec_Const )
 					break;
 
+				if ( NumSpecifiers == count_of(specs_found) )
+				{
+					log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -4783,6 +4823,13 @@ CodeTemplate parser_parse_template()
 		break;
 	}
 
+	if ( definition == nullptr || definition == Code_Invalid )
+	{
+		log_failure( "Error, expected a declaration after the template parameters\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
 	CodeTemplate result = ( CodeTemplate )make_code();
 	result->Type        = CT_Template;
 	result->Params      = params;
@@ -4836,6 +4883,12 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 			return InvalidCode;
 		}
 
+		if ( NumSpecifiers == count_of(specs_found) )
+		{
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4979,6 +5032,12 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 		}
+		if ( NumSpecifiers == count_of(specs_found) )
+		{
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -5005,24 +5064,25 @@ else if ( currtok.Type == Tok_DeclType )
 	Token* last_capture         = nullptr;
 	{
 		Token* scanner = _ctx->parser.Tokens.Arr + _ctx->parser.Tokens.Idx;
+		Token* end     = _ctx->parser.Tokens.Arr + array_num(_ctx->parser.Tokens.Arr);
 
 		// An identifier being within a typename's signature only occurs if were parsing a typename for a typedef.
-		if ( typedef_is_function && scanner->Type == Tok_Identifier )
+		if ( typedef_is_function && scanner != end && scanner->Type == Tok_Identifier )
 		{
 			is_function_typename = true;
 			++scanner;
 		}
-		is_function_typename = scanner->Type == Tok_Paren_Open;
+		is_function_typename = scanner != end && scanner->Type == Tok_Paren_Open;
 
 		Token* first_capture = scanner;
 		if ( is_function_typename )
 		{
 			// Go to the end of the signature
-			while ( scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
+			while ( scanner != end && scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
 				++scanner;
 
 			// Go back to the first capture start found
-			while ( scanner->Type != Tok_Paren_Open )
+			while ( scanner == end || scanner->Type != Tok_Paren_Open )
 				--scanner;
 
 			last_capture = scanner;
@@ -5111,6 +5171,12 @@ else if ( currtok.Type == Tok_DeclType )
 					return InvalidCode;
 				}
 
+				if ( NumSpecifiers == count_of(specs_found) )
+				{
+					log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -5181,6 +5247,12 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 
+			if ( NumSpecifiers == count_of(specs_found) )
+			{
+				log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -5778,6 +5850,12 @@ CodeVar parser_parse_variable()
 		if ( spec == Spec_Const )
 			break;
 
+		if ( NumSpecifiers == count_of(specs_found) )
+		{
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
-- 
2.43.0


From 9349669c37c7a9ed0014c507eb01c840fe1a3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 23/53] fix: parser: lone varadic parameters, parenthesised and
 shifted default values, missing parameters

---
 base/components/parser.cpp | 54 +++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6f3c75f..0646177 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2875,6 +2875,16 @@ CodeParams parse_params( bool use_template_capture )
 		eat( Tok_Varadic_Argument );
 		// ( or <  ...
 
+		if ( ! use_template_capture )
+			eat( Tok_Paren_Close );
+		else if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '>' )
+			eat( Tok_Operator );
+		else {
+			log_failure( "Expected '>' after '...'\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		parser_pop(& _ctx->parser);
 		return param_varadic;
 		// ( ... )
@@ -2894,6 +2904,12 @@ CodeParams parse_params( bool use_template_capture )
 		macro = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
 		// ( <Macro>
 	}
+	if ( currtok.Type == Tok_Comma && macro == nullptr )
+	{
+		log_failure( "Expected a parameter\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
 	if ( currtok.Type != Tok_Comma )
 	{
 		type = parser_parse_type( use_template_capture, nullptr );
@@ -2940,13 +2956,20 @@ CodeParams parse_params( bool use_template_capture )
 			s32 template_level = 0;
 			while ( left && ( ( ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams() ) || capture_level > 0 || template_level > 0 ) )
 			{
-				if (currtok.Text.Ptr[ 0 ] == '<')
-					++ template_level;
+				// What is captured within parenthesis are expressions, and only a template's parameters end with a >
+				if ( capture_level == 0 )
+				{
+					if (currtok.Text.Ptr[ 0 ] == '<')
+						++ template_level;
 
-				if (currtok.Text.Ptr[ 0 ] == '>')
-					-- template_level;
-				if (currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[0] == '>' && currtok.Text.Ptr[1] == '>')
-					-- template_level;
+					if (currtok.Text.Ptr[ 0 ] == '>')
+						-- template_level;
+					if (currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[0] == '>' && currtok.Text.Ptr[1] == '>')
+						-- template_level;
+
+					if ( ! use_template_capture && template_level < 0 )
+						template_level = 0;
+				}
 
 				if ( currtok.Type == Tok_Paren_Open)
 					++ capture_level;
@@ -3056,13 +3079,20 @@ CodeParams parse_params( bool use_template_capture )
 				&& template_level >= 0
 				&& CheckEndParams() ) || capture_level > 0 || template_level > 0 ) )
 				{
-					if (currtok.Text.Ptr[ 0 ] == '<')
-						++ template_level;
+					// What is captured within parenthesis are expressions, and only a template's parameters end with a >
+					if ( capture_level == 0 )
+					{
+						if (currtok.Text.Ptr[ 0 ] == '<')
+							++ template_level;
 
-					if (currtok.Text.Ptr[ 0 ] == '>')
-						-- template_level;
-					if (currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[0] == '>' && currtok.Text.Ptr[1] == '>')
-						-- template_level;
+						if (currtok.Text.Ptr[ 0 ] == '>')
+							-- template_level;
+						if (currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[0] == '>' && currtok.Text.Ptr[1] == '>')
+							-- template_level;
+
+						if ( ! use_template_capture && template_level < 0 )
+							template_level = 0;
+					}
 
 					if ( currtok.Type == Tok_Paren_Open)
 						++ capture_level;
-- 
2.43.0


From 2d7839135bd432db5b67197133c1b7805ca6d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 24/53] fix: parser: operators made of several tokens,
 qualified operators of templates, template constructors, trailing destructor
 specifiers, unnamed variables, comments before names

---
 base/components/code_serialization.cpp |  40 +++-
 base/components/interface.upfront.cpp  |  10 +-
 base/components/lexer.cpp              |  25 +--
 base/components/parser.cpp             | 270 +++++++++++++------------
 4 files changed, 190 insertions(+), 155 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index f6cd3bc..3bff23b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -3,6 +3,18 @@
 #include "ast.cpp"
 #endif
 
+// The name without the arguments of a specialization, as its constructors and destructor refer to it.
+internal
+Str class_symbol_name(Str name)
+{
+	for ( ssize idx = 0; idx < name.Len; ++ idx )
+	{
+		if ( name.Ptr[idx] == '<' || char_is_space( name.Ptr[idx] ) )
+			name.Len = idx;
+	}
+	return name;
+}
+
 StrBuilder body_to_strbuilder(CodeBody body)
 {
 	GEN_ASSERT(body);
@@ -81,7 +93,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 
 	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
-		strbuilder_append_str( result, ClassStructParent->Name );
+		strbuilder_append_str( result, class_symbol_name(ClassStructParent->Name) );
 	}
 	else {
 		strbuilder_append_str( result, self->Name );
@@ -96,7 +108,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->InitializerList) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, " %S", self->InlineCmt->Content );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -116,7 +128,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 
 	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent) {
-		strbuilder_append_str( result, ClassStructParent->Name );
+		strbuilder_append_str( result, class_symbol_name(ClassStructParent->Name) );
 	}
 	else {
 		strbuilder_append_str( result, self->Name );
@@ -131,7 +143,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
 		strbuilder_append_str( result, txt(";\n") );
 }
@@ -276,7 +288,7 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 	GEN_ASSERT(result);
 	// Within a class or struct, the destructor's immediate parent is the body.
 	Code class_struct_parent = self->Parent && self->Parent->Parent ? self->Parent->Parent : self->Parent;
-	Str  class_name          = class_struct_parent ? class_struct_parent->Name : txt("");
+	Str  class_name          = class_struct_parent ? class_symbol_name(class_struct_parent->Name) : txt("");
 
 	if ( self->Name.Len )
 	{
@@ -292,6 +304,14 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 	else
 		strbuilder_append_fmt( result, "~%S()", class_name );
 
+	if ( self->Specs )
+	{
+		if ( specifiers_has(self->Specs, Spec_Override ) )
+			strbuilder_append_str( result, txt(" override") );
+		if ( specifiers_has(self->Specs, Spec_Final ) )
+			strbuilder_append_str( result, txt(" final") );
+	}
+
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
 
@@ -301,7 +321,7 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 	GEN_ASSERT(result);
 	// Within a class or struct, the destructor's immediate parent is the body.
 	Code class_struct_parent = self->Parent && self->Parent->Parent ? self->Parent->Parent : self->Parent;
-	Str  class_name          = class_struct_parent ? class_struct_parent->Name : txt("");
+	Str  class_name          = class_struct_parent ? class_symbol_name(class_struct_parent->Name) : txt("");
 
 	if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
 		strbuilder_append_str( result, txt("virtual ") );
@@ -311,6 +331,14 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 	else
 		strbuilder_append_fmt( result, "~%S()", class_name );
 
+	if ( self->Specs )
+	{
+		if ( specifiers_has(self->Specs, Spec_Override ) )
+			strbuilder_append_str( result, txt(" override") );
+		if ( specifiers_has(self->Specs, Spec_Final ) )
+			strbuilder_append_str( result, txt(" final") );
+	}
+
 	if ( self->Specs && specifiers_has(self->Specs, Spec_Pure ) )
 		strbuilder_append_str( result, txt(" = 0") );
 	else if ( self->Body )
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 1f6a74a..27c3600 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -354,16 +354,12 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			}
 			break;
 
-		case Op_PtrToMemOfPtr:
-			if ( params_code )
-			{
-				log_failure("gen::def_operator: operator %S expects no paramters - %S", operator_to_str(op), code_debug_str((Code)params_code));
-				return OpValResult_Fail;
-			}
+		case Op_FunctionCall:
+			// May be called without arguments.
 			break;
 
+		case Op_PtrToMemOfPtr:
 		case Op_Subscript:
-		case Op_FunctionCall:
 		case Op_Comma:
 			check_params();
 			break;
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 842557e..3dc0a9c 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -59,25 +59,21 @@ Token* lex_peek(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( lex_at(self, idx)->Type == Tok_NewLine )
+		while ( lex_at(self, idx)->Type == Tok_NewLine || lex_at(self, idx)->Type == Tok_Comment )
 			idx++;
-
-		return lex_at(self, idx);
 	}
 	return lex_at(self, idx);
 }
 
 Token* lex_previous(TokArray self, bool skip_formatting)
 {
-	s32 idx = self.Idx;
+	s32 idx = self.Idx - 1;
 	if ( skip_formatting )
 	{
-		while ( lex_at(self, idx)->Type == Tok_NewLine )
-			idx --;
-
-		return lex_at(self, idx);
+		while ( lex_at(self, idx)->Type == Tok_NewLine || lex_at(self, idx)->Type == Tok_Comment )
+			idx--;
 	}
-	return lex_at(self, idx - 1);
+	return lex_at(self, idx);
 }
 
 Token* lex_next(TokArray self, bool skip_formatting)
@@ -85,12 +81,17 @@ Token* lex_next(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( lex_at(self, idx)->Type == Tok_NewLine )
+		while ( lex_at(self, idx)->Type == Tok_NewLine || lex_at(self, idx)->Type == Tok_Comment )
 			idx++;
+	}
 
-		return lex_at(self, idx + 1);
+	idx++;
+	if ( skip_formatting )
+	{
+		while ( lex_at(self, idx)->Type == Tok_NewLine || lex_at(self, idx)->Type == Tok_Comment )
+			idx++;
 	}
-	return lex_at(self, idx + 1);
+	return lex_at(self, idx);
 }
 
 enum
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 0646177..3e45d66 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -172,7 +172,8 @@ bool _check_parse_args( Str def, char const* func_name )
 #	define currtok_noskip (* lex_current( &  _ctx->parser.Tokens, lex_dont_skip_formatting ))
 #	define currtok        (* lex_current( & _ctx->parser.Tokens, lex_skip_formatting ))
 #	define peektok        (* lex_peek(_ctx->parser.Tokens, lex_skip_formatting))
-#	define prevtok        (* lex_previous( _ctx->parser.Tokens, lex_dont_skip_formatting))
+#	define prevtok        (* lex_previous( _ctx->parser.Tokens, lex_skip_formatting))
+#	define prevtok_noskip (* lex_previous( _ctx->parser.Tokens, lex_dont_skip_formatting))
 #	define nexttok		  (* lex_next( _ctx->parser.Tokens, lex_skip_formatting ))
 #	define nexttok_noskip (* lex_next( _ctx->parser.Tokens, lex_dont_skip_formatting))
 #	define eat( Type_ )   lex__eat( & _ctx->parser.Tokens, Type_ )
@@ -219,6 +220,7 @@ internal CodeBody           parse_global_nspace                ( CodeType which
 internal Code               parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers );
 internal Token              parse_identifier                   ( bool* possible_member_function );
 internal CodeInclude        parse_include                      ();
+internal bool               is_qualified_operator              ();
 internal Code               parse_macro_as_definiton           ( CodeAttributes attributes, CodeSpecifiers specifiers );
 internal CodeOperator       parse_operator_after_ret_type      ( ModuleFlag mflags, CodeAttributes attributes, CodeSpecifiers specifiers, CodeTypename ret_type );
 internal Code               parse_operator_function_or_variable( bool expects_function, CodeAttributes attributes, CodeSpecifiers specifiers );
@@ -1137,7 +1139,15 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( nexttok.Type == Tok_Paren_Open && name.Text.Len && currtok.Type == Tok_Identifier )
 				{
-					if ( str_are_equal( name.Text, currtok.Text ) )
+					// A specialization has its arguments within the name.
+					Str ctor_name = name.Text;
+					for ( s32 idx = 0; idx < ctor_name.Len; idx++ )
+					{
+						if ( ctor_name.Ptr[idx] == '<' || char_is_space( ctor_name.Ptr[idx] ) )
+							ctor_name.Len = idx;
+					}
+
+					if ( str_are_equal( ctor_name, currtok.Text ) )
 					{
 						member = cast(Code, parser_parse_constructor( specifiers ));
 						// <Attributes> <Specifiers> <Name>()
@@ -1652,9 +1662,9 @@ Code parse_function_body()
 		eat( currtok_noskip.Type );
 	}
 
-	Token past = prevtok;
+	Token past = prevtok_noskip;
 
-	s32 len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)start.Text.Ptr;
+	s32 len = ( (sptr)past.Text.Ptr + past.Text.Len ) - (sptr)start.Text.Ptr;
 
 	if ( len > 0 )
 	{
@@ -1947,30 +1957,7 @@ CodeBody parse_global_nspace( CodeType which )
 						break;
 					}
 
-					bool found_operator_cast_outside_class_implmentation = false;
-					s32  idx = _ctx->parser.Tokens.Idx;
-
-					for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
-					{
-						Token tok = _ctx->parser.Tokens.Arr[ idx ];
-
-						if ( tok.Type == Tok_Identifier && idx + 1 < array_num(_ctx->parser.Tokens.Arr) )
-						{
-							idx++;
-							tok = _ctx->parser.Tokens.Arr[ idx ];
-							if ( tok.Type == Tok_Access_StaticSymbol )
-								continue;
-
-							break;
-						}
-
-						if ( tok.Type == Tok_Decl_Operator )
-							found_operator_cast_outside_class_implmentation = true;
-
-						break;
-					}
-
-					if ( found_operator_cast_outside_class_implmentation )
+					if ( is_qualified_operator() )
 					{
 						member = cast(Code, parser_parse_operator_cast( specifiers ));
 						// <Attributes> <Specifiers> <Name>::operator <Type>() { ... }
@@ -2167,6 +2154,8 @@ Token parse_identifier( bool* possible_member_function )
 	// If that is the case first  option will be Tok_Access_StaticSymbol below
 	if (check(Tok_Identifier) || accept_as_identifier)
 		eat( Tok_Identifier );
+	else
+		name.Text.Len = 0;
 	// <Name>
 
 	parse_template_args( & name );
@@ -2260,6 +2249,47 @@ CodeInclude parse_include()
 	return include;
 }
 
+// Looks ahead for: <Qualifier> <Template Args> :: ... operator
+internal
+bool is_qualified_operator()
+{
+	TokArray tokens = _ctx->parser.Tokens;
+	while ( lex_current( & tokens, lex_skip_formatting )->Type == Tok_Identifier )
+	{
+		tokens.Idx++;
+
+		Token* tok = lex_current( & tokens, lex_skip_formatting );
+		if ( tok->Type == Tok_Operator && tok->Text.Ptr[0] == '<' && tok->Text.Len == 1 )
+		{
+			s32 level = 0;
+			for ( ; tokens.Idx < array_num(tokens.Arr); tokens.Idx++ )
+			{
+				tok = & tokens.Arr[ tokens.Idx ];
+				if ( tok->Type != Tok_Operator )
+					continue;
+
+				if ( tok->Text.Ptr[0] == '<' && tok->Text.Len == 1 )
+					level++;
+				else if ( tok->Text.Ptr[0] == '>' )
+					level -= tok->Text.Len;
+
+				if ( level <= 0 )
+				{
+					tokens.Idx++;
+					break;
+				}
+			}
+			tok = lex_current( & tokens, lex_skip_formatting );
+		}
+
+		if ( tok->Type != Tok_Access_StaticSymbol )
+			return false;
+
+		tokens.Idx++;
+	}
+	return lex_current( & tokens, lex_skip_formatting )->Type == Tok_Decl_Operator;
+}
+
 internal
 CodeOperator parse_operator_after_ret_type(
 	  ModuleFlag     mflags
@@ -2277,6 +2307,7 @@ CodeOperator parse_operator_after_ret_type(
 		while ( left && currtok.Type == Tok_Identifier )
 		{
 			eat( Tok_Identifier );
+			parse_template_args( & nspace );
 
 			if ( currtok.Type == Tok_Access_StaticSymbol )
 				eat( Tok_Access_StaticSymbol );
@@ -2320,7 +2351,7 @@ CodeOperator parse_operator_after_ret_type(
 			if ( currtok.Text.Ptr[1] == '>' )
 			{
 				if ( currtok.Text.Ptr[2] == '*' )
-					op = Op_MemberOfPointer;
+					op = Op_PtrToMemOfPtr;
 
 				else
 					op = Op_MemberOfPointer;
@@ -2331,6 +2362,9 @@ CodeOperator parse_operator_after_ret_type(
 			else if ( currtok.Text.Ptr[1] == '=' )
 				op = Op_Assign_Subtract;
 
+			else if ( currtok.Text.Ptr[1] == '-' )
+				op = Op_Decrement;
+
 			else
 				op = Op_Subtract;
 		}
@@ -2341,20 +2375,7 @@ CodeOperator parse_operator_after_ret_type(
 				op = Op_Assign_Multiply;
 
 			else
-			{
-				Token finder = prevtok;
-				while ( finder.Type != Tok_Decl_Operator )
-				{
-					if ( finder.Type == Tok_Identifier)
-					{
-						op = Op_Indirection;
-						break;
-					}
-				}
-
-				if ( op == Op_Invalid)
-					op = Op_Multiply;
-			}
+				op = Op_Multiply;
 		}
 		break;
 		case '/':
@@ -2384,12 +2405,7 @@ CodeOperator parse_operator_after_ret_type(
 				op = Op_LAnd;
 
 			else
-			{
-
-
-				if ( op == Op_Invalid )
 				op = Op_BAnd;
-			}
 		}
 		break;
 		case '|':
@@ -2472,7 +2488,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '(':
 		{
-			if ( currtok.Text.Ptr[1] == ')' )
+			if ( nexttok.Type == Tok_Paren_Close )
 				op = Op_FunctionCall;
 
 			else
@@ -2481,13 +2497,18 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '[':
 		{
-			if ( currtok.Text.Ptr[1] == ']' )
+			if ( currtok.Text.Ptr[1] == ']' || nexttok.Type == Tok_BraceSquare_Close )
 				op = Op_Subscript;
 
 			else
 				op = Op_Invalid;
 		}
 		break;
+		case ',':
+		{
+			op = Op_Comma;
+		}
+		break;
 		default:
 		{
 			Str c_str_new    = operator_to_str(Op_New);
@@ -2559,8 +2580,23 @@ CodeOperator parse_operator_after_ret_type(
 		return InvalidCode;
 	}
 
-	if ( ! was_new_or_delete)
-		eat( currtok.Type );
+	if ( op == Op_FunctionCall )
+	{
+		eat( Tok_Paren_Open );
+		eat( Tok_Paren_Close );
+	}
+	else if ( op == Op_Subscript && currtok.Type == Tok_BraceSquare_Open )
+	{
+		eat( Tok_BraceSquare_Open );
+		eat( Tok_BraceSquare_Close );
+	}
+	else if ( ! was_new_or_delete )
+	{
+		// The lexer may have split the operator into several tokens.
+		char const* op_end = currtok.Text.Ptr + operator_to_str(op).Len;
+		while ( left && currtok.Text.Ptr < op_end )
+			eat( currtok.Type );
+	}
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op>
 
 	// Parse Params
@@ -2571,8 +2607,16 @@ CodeOperator parse_operator_after_ret_type(
 	}
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
-	if ( params == nullptr && op == Op_Multiply )
-		op = Op_MemberOfPointer;
+	// Without parameters its the unary operator of the symbol.
+	if ( params == nullptr ) switch ( op )
+	{
+		case Op_Add:      op = Op_Unary_Plus;  break;
+		case Op_Subtract: op = Op_Unary_Minus; break;
+		case Op_Multiply: op = Op_Indirection; break;
+		case Op_BAnd:     op = Op_AddressOf;   break;
+		default:
+		break;
+	}
 
 	while ( left && tok_is_specifier(currtok) )
 	{
@@ -2680,30 +2724,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		return InvalidCode;
 	}
 
-	bool found_operator = false;
-	s32  idx            = _ctx->parser.Tokens.Idx;
-
-	for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
-	{
-		Token tok = _ctx->parser.Tokens.Arr[ idx ];
-
-		if ( tok.Type == Tok_Identifier )
-		{
-			idx++;
-			tok = * lex_at( _ctx->parser.Tokens, idx );
-			if ( tok.Type == Tok_Access_StaticSymbol )
-				continue;
-
-			break;
-		}
-
-		if ( tok.Type == Tok_Decl_Operator )
-			found_operator = true;
-
-		break;
-	}
-
-	if ( found_operator )
+	if ( is_qualified_operator() )
 	{
 		// Dealing with an operator overload
 		result = cast(Code, parse_operator_after_ret_type( ModuleFlag_None, attributes, specifiers, type ));
@@ -2720,7 +2741,10 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		//                  (         350.0f    ,         <---  Could be the scenario
 		// Example : <Capture_Start> <Value> <Comma>
 		//                 idx         +1      +2
-		bool detected_comma = lex_at( _ctx->parser.Tokens, _ctx->parser.Tokens.Idx + 2 )->Type == Tok_Comma;
+		TokArray ahead = _ctx->parser.Tokens;
+		lex_current( & ahead, lex_skip_formatting );
+		ahead.Idx++;
+		bool detected_comma = lex_next( ahead, lex_skip_formatting )->Type == Tok_Comma;
 
 		b32   detected_non_varadic_unpaired_param = detected_comma && nexttok.Type != Tok_Varadic_Argument;
 		if (! detected_non_varadic_unpaired_param && nexttok.Type ==  Tok_Preprocess_Macro_Expr) for( s32 break_scope = 0; break_scope == 0; ++ break_scope)
@@ -3279,7 +3303,7 @@ Code parse_simple_preprocess( TokType which )
 				eat( Tok_Statement_End );
 				// <Macro>;
 
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok_noskip.Text.Ptr + prevtok_noskip.Text.Len ) - (sptr)full_macro.Text.Ptr;
 
 				// TODO(Ed): Reveiw the context for this? (ESPECIALLY THIS)
 				if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
@@ -3287,7 +3311,7 @@ Code parse_simple_preprocess( TokType which )
 					eat( Tok_Comment );
 					// <Macro>; <InlineCmt>
 
-					full_macro.Text.Len += prevtok.Text.Len;
+					full_macro.Text.Len = ( (sptr)prevtok_noskip.Text.Ptr + prevtok_noskip.Text.Len ) - (sptr)full_macro.Text.Ptr;
 				}
 			}
 		}
@@ -3301,7 +3325,7 @@ Code parse_simple_preprocess( TokType which )
 				Token stmt_end = currtok;
 				eat( Tok_Statement_End );
 				// <Macro>;
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok_noskip.Text.Ptr + prevtok_noskip.Text.Len ) - (sptr)full_macro.Text.Ptr;
 			}
 		}
 	}
@@ -3834,7 +3858,11 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	push_scope();
 
 	bool has_context         = _ctx->parser.Scope && _ctx->parser.Scope->Prev;
-	bool is_in_global_nspace = has_context && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
+	bool is_in_global_nspace = has_context && (
+		str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") )
+	||	str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace_constructor_destructor") )
+	||	str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parser_parse_template") )
+	);
 
 	if ( check( Tok_Spec_Virtual ) )
 	{
@@ -3869,6 +3897,17 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	eat( Tok_Paren_Close );
 	// <Virtual Specifier> ~<Name>()
 
+	while ( check( Tok_Spec_Override ) || check( Tok_Spec_Final ) )
+	{
+		Specifier spec = str_to_specifier( currtok.Text );
+		if ( specifiers )
+			specifiers_append(specifiers, spec );
+		else
+			specifiers = def_specifier( spec );
+		eat( currtok.Type );
+	}
+	// <Virtual Specifier> ~<Name>() <Specifiers>
+
 	bool pure_virtual = false;
 
 	if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '=' )
@@ -3922,8 +3961,8 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	CodeDestructor result = ( CodeDestructor )make_code();
 
 	if ( tok_is_valid(prefix_identifier) ) {
-		prefix_identifier.Text.Len += 1 + identifier.Text.Len;
-		result->Name = cache_str( prefix_identifier.Text );
+		StrBuilder full_name = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%S~%S", prefix_identifier.Text, identifier.Text );
+		result->Name = cache_str( strbuilder_to_str(full_name) );
 	}
 
 	if ( specifiers )
@@ -4579,6 +4618,7 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 		while ( left && currtok.Type == Tok_Identifier )
 		{
 			eat( Tok_Identifier );
+			parse_template_args( & name );
 			// <Specifiers> <Qualifier>
 
 			if ( currtok.Type == Tok_Access_StaticSymbol )
@@ -4622,28 +4662,8 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	if ( check( Tok_BraceCurly_Open) )
 	{
-		eat( Tok_BraceCurly_Open );
-		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> {
-
-		Token body_str = currtok;
-
-		s32 level = 0;
-		while ( left && ( currtok.Type != Tok_BraceCurly_Close || level > 0 ) )
-		{
-			if ( currtok.Type == Tok_BraceCurly_Open )
-				level++;
-
-			else if ( currtok.Type == Tok_BraceCurly_Close )
-				level--;
-
-			eat( currtok.Type );
-		}
-		body_str.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr;
-
-		eat( Tok_BraceCurly_Close );
+		body = parse_function_body();
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
-
-		body = untyped_str( body_str.Text );
 	}
 	else
 	{
@@ -4672,6 +4692,7 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 	if ( specifiers )
 		result->Specs = specifiers;
 
+	result->InlineCmt = inline_cmt;
 	result->ValueType = cast(CodeTypename, type);
 
 	parser_pop(& _ctx->parser);
@@ -4769,6 +4790,10 @@ CodeTemplate parser_parse_template()
 					GEN_PARSER_TEMPLATE_ALLOWED_SPECIFIER_CASES:
 					break;
 
+					// Constructors and conversions
+					case Spec_Explicit :
+					break;
+
 					case Spec_Consteval :
 						expects_function = true;
 						break;
@@ -4815,33 +4840,18 @@ CodeTemplate parser_parse_template()
 			}
 		}
 
+		bool is_in_class = has_context && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_class_struct_body") );
+		if (is_in_class && currtok.Type == Tok_Identifier && nexttok.Type == Tok_Paren_Open)
+		{
+			definition = cast(Code, parser_parse_constructor( specifiers ));
+			// <export> template< <Parameters> > <Attributes> <Specifiers> <Name>()
+			break;
+		}
+
 		// Possible user Defined operator casts
 		if (is_in_global_nspace)
 		{
-			bool found_operator_cast_outside_class_implmentation = false;
-			s32  idx = _ctx->parser.Tokens.Idx;
-
-			for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
-			{
-				Token tok = _ctx->parser.Tokens.Arr[ idx ];
-
-				if ( tok.Type == Tok_Identifier )
-				{
-					idx++;
-					tok = _ctx->parser.Tokens.Arr[ idx ];
-					if ( tok.Type == Tok_Access_StaticSymbol )
-						continue;
-
-					break;
-				}
-
-				if ( tok.Type == Tok_Decl_Operator )
-					found_operator_cast_outside_class_implmentation = true;
-
-				break;
-			}
-
-			if ( found_operator_cast_outside_class_implmentation ) {
+			if ( is_qualified_operator() ) {
 				definition = cast(Code, parser_parse_operator_cast( specifiers ));
 				// <Attributes> <Specifiers> <Name> :: operator <Type> () { ... }
 				break;
-- 
2.43.0


From 904e50094ed17dfa6cee3fe083e7d14d991765d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 25/53] fix: parser: numeric literal suffixes, names with
 template arguments, union & enum forwards, look-ahead for constructors,
 export blocks, inherited access, escapes within directives

---
 base/components/code_serialization.cpp |  2 +-
 base/components/inlines.hpp            |  7 +++-
 base/components/interface.upfront.cpp  |  6 +++
 base/components/lexer.cpp              | 55 ++++++++++++++----------
 base/components/parser.cpp             | 58 +++++++++++++++++++++-----
 base/components/parser_case_macros.cpp |  2 +
 6 files changed, 95 insertions(+), 35 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 3bff23b..f85b2e2 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1096,7 +1096,7 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 	strbuilder_append_str( result, txt("typedef "));
 
 	// Determines if the typedef is a function typename
-	if ( self->UnderlyingType->ReturnType )
+	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ReturnType )
 		strbuilder_append_string( result, code_to_strbuilder(self->UnderlyingType) );
 	else
 		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(self->UnderlyingType), self->Name );
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 88a9d86..edc4d7c 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -448,8 +448,7 @@ void body_append( CodeBody self, Code other )
 	GEN_ASSERT(self);
 	GEN_ASSERT(other);
 
-	// An export block isn't flattened as it has its own scope.
-	if (code_is_body(other) && other->Type != CT_Export_Body) {
+	if (code_is_body(other)) {
 		body_append_body( self, cast(CodeBody, other) );
 		return;
 	}
@@ -465,6 +464,10 @@ void body_append_body( CodeBody self, CodeBody body )
 
 	for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) {
 		body_append( self, entry );
+
+		// A body cannot be an entry of another, so what was within an export block is exported on its own.
+		if ( body->Type == CT_Export_Body && self->Type != CT_Export_Body )
+			self->Back->ModuleFlags = ModuleFlag_Export;
 	}
 }
 inline
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 27c3600..754f3fc 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -557,6 +557,9 @@ CodeClass def_class( Str name, Opts_def_struct p )
 	for (s32 idx = 0; idx < p.num_interfaces; idx++ ) {
 		class_add_interface(result, p.interfaces[idx] );
 	}
+	// Interfaces come after the parent, they don't change how it is inherited.
+	if ( p.parent )
+		result->ParentAccess = p.parent_access;
 	return result;
 }
 
@@ -1073,6 +1076,9 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 	for (s32 idx = 0; idx < p.num_interfaces; idx++ ) {
 		struct_add_interface(result, p.interfaces[idx] );
 	}
+	// Interfaces come after the parent, they don't change how it is inherited.
+	if ( p.parent )
+		result->ParentAccess = p.parent_access;
 	return result;
 }
 
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 3dc0a9c..c84fb80 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -326,6 +326,15 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			if ( * ctx->scanner == '\'' && ! within_string )
 				within_char ^= true;
 
+			if ( * ctx->scanner == '\\' && ( within_string || within_char ) && ctx->left > 1 )
+			{
+				// The escaped character doesn't end the literal
+				move_forward();
+				move_forward();
+				ctx->token.Text.Len += 2;
+				continue;
+			}
+
 			if ( * ctx->scanner == '\\' && ! within_string && ! within_char )
 			{
 				move_forward();
@@ -461,6 +470,15 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		if ( (* ctx->scanner) == '\'' && ! within_string )
 			within_char ^= true;
 
+		if ( (* ctx->scanner) == '\\' && ( within_string || within_char ) && ctx->left > 1 )
+		{
+			// The escaped character doesn't end the literal
+			move_forward();
+			move_forward();
+			preprocess_content.Text.Len += 2;
+			continue;
+		}
+
 		if ( (* ctx->scanner) == '\\' && ! within_string && ! within_char )
 		{
 			move_forward();
@@ -1077,7 +1095,7 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
-				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 2 )
 				{
 					c.token.Text.Len++;
 
@@ -1122,7 +1140,7 @@ TokArray lex( Str content )
 						if (c.left)
 							move_forward();
 					}
-					else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+					else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 2 )
 					{
 						c.token.Text.Len++;
 
@@ -1255,8 +1273,6 @@ TokArray lex( Str content )
 					move_forward();
 					c.token.Text.Len++;
 				}
-
-				goto FoundToken;
 			}
 
 			while ( c.left && char_is_digit((* ctx->scanner)) ) {
@@ -1274,24 +1290,21 @@ TokArray lex( Str content )
 					c.token.Text.Len++;
 				}
 
-				// Handle number literal suffixes in a botched way
-				if (c.left && (
-					(* ctx->scanner) == 'l' || (* ctx->scanner) == 'L' ||  // long/long long
-					(* ctx->scanner) == 'u' || (* ctx->scanner) == 'U' ||  // unsigned
-					(* ctx->scanner) == 'f' || (* ctx->scanner) == 'F' ||  // float
-					(* ctx->scanner) == 'i' || (* ctx->scanner) == 'I' ||  // imaginary
-					(* ctx->scanner) == 'z' || (* ctx->scanner) == 'Z'))   // complex
-				{
-					char prev = (* ctx->scanner);
-					move_forward();
-					c.token.Text.Len++;
+			}
 
-					// Handle 'll'/'LL' as a special case when we just processed an 'l'/'L'
-					if (c.left && (prev == 'l' || prev == 'L') && ((* ctx->scanner) == 'l' || (* ctx->scanner) == 'L')) {
-						move_forward();
-						c.token.Text.Len++;
-					}
-				}
+			// The suffixes, exponents & digit separators belong to the literal
+			b32 is_hex = c.token.Text.Len > 1 && ( c.token.Text.Ptr[1] == 'x' || c.token.Text.Ptr[1] == 'X' );
+			while ( c.left )
+			{
+				char curr = (* ctx->scanner);
+				char prev = c.token.Text.Ptr[ c.token.Text.Len - 1 ];
+				b32 in_exponent  = ( curr == '+' || curr == '-' ) && ( is_hex ? prev == 'p' || prev == 'P' : prev == 'e' || prev == 'E' );
+				b32 is_separator = curr == '\'' && c.left > 1 && char_is_alphanumeric( ctx->scanner[1] );
+				if ( ! char_is_alphanumeric( curr ) && curr != '_' && ! in_exponent && ! is_separator )
+					break;
+
+				move_forward();
+				c.token.Text.Len++;
 			}
 
 			goto FoundToken;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3e45d66..8493320 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1240,6 +1240,22 @@ Code parse_complicated_definition( TokType which )
 			break;
 	}
 
+	if ( which == Tok_Decl_Enum && ! had_def )
+	{
+		s32 name_idx = tokens.Idx + 1;
+		if ( lex_at( tokens, name_idx )->Type == Tok_Decl_Class )
+			++ name_idx;
+
+		if ( lex_at( tokens, name_idx )->Type == Tok_Identifier && lex_at( tokens, name_idx + 1 )->Type == Tok_Assign_Classifer )
+		{
+			// Its a forward declaration of an enum
+			// <enum> <class> <type_identifier> : <UnderlyingType>;
+			Code result = cast(Code, parser_parse_enum( ! parser_inplace_def));
+			parser_pop(& _ctx->parser);
+			return result;
+		}
+	}
+
 	is_fn_def = had_def && had_paren;
 	if (is_fn_def)
 	{
@@ -1582,9 +1598,8 @@ CodeFn parse_function_after_name(
 			// <Attributes> <Specifiers> <ReturnType> <Name> ( <Paraemters> ) <Specifiers>; <InlineCmt>
 	}
 
-	StrBuilder
-	name_stripped = strbuilder_make_str( _ctx->Allocator_Temp, name.Text );
-	strbuilder_strip_space(name_stripped);
+	// The spaces within the name's template arguments (<unsigned int>) separate tokens
+	StrBuilder name_stripped = parser_strip_formatting( name.Text, parser_strip_formatting_dont_preserve_newlines );
 
 	CodeFn
 	result              = (CodeFn) make_code();
@@ -2049,14 +2064,18 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 				if ( template_level != 0 && nav.Type == Tok_Paren_Close)
 					-- capture_level;
+
+				// The template's parameters ended, or it wasn't a template.
+				if ( template_level <= 0 || ( capture_level == 0 && ( nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open ) ) )
+					break;
 			}
 		}
 
 		if ( nav.Type == Tok_Paren_Open )
 			break;
 
-		// The statement ended without a parameter list.
-		if ( nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open || nav.Type == Tok_BraceCurly_Close )
+		// The statement ended without a parameter list, or its a variable's value or dimension.
+		if ( bitfield_is_set( u32, nav.Flags, TF_Assign ) || nav.Type == Tok_BraceSquare_Open || nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open || nav.Type == Tok_BraceCurly_Close )
 			return result;
 	}
 
@@ -2995,10 +3014,10 @@ CodeParams parse_params( bool use_template_capture )
 						template_level = 0;
 				}
 
-				if ( currtok.Type == Tok_Paren_Open)
+				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 					++ capture_level;
 
-				if ( currtok.Type == Tok_Paren_Close)
+				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 					-- capture_level;
 
 				value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -3118,10 +3137,10 @@ CodeParams parse_params( bool use_template_capture )
 							template_level = 0;
 					}
 
-					if ( currtok.Type == Tok_Paren_Open)
+					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 						++ capture_level;
 
-					if ( currtok.Type == Tok_Paren_Close)
+					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 						-- capture_level;
 
 					value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -3475,6 +3494,12 @@ CodeVar parse_variable_after_name(
 
 		Token expr_token = currtok;
 
+		if ( currtok.Type == Tok_Paren_Close ) {
+			log_failure( "Expected an expression for the constructor initialization of a variable\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		using_constructor_initializer = true;
 
 		s32 level = 0;
@@ -4385,7 +4410,7 @@ CodeFriend parser_parse_friend()
 	}
 
 	// Operator declaration or definition
-	if ( currtok.Type == Tok_Decl_Operator ) {
+	else if ( currtok.Type == Tok_Decl_Operator ) {
 		op = parse_operator_after_ret_type( ModuleFlag_None, NullCode, specifiers, type );
 	}
 
@@ -5560,6 +5585,12 @@ CodeTypedef parser_parse_typedef()
 		// <UnderlyingType> + <ArrayExpr>
 	}
 
+	if ( type == Code_Invalid ) {
+		log_failure( "Error, failed to parse the underlying type of a typedef\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
 	Token stmt_end = currtok;
 	eat( Tok_Statement_End );
 	// <ModuleFalgs> typedef <UnderlyingType> <Name>;
@@ -5633,7 +5664,8 @@ CodeUnion parser_parse_union( bool inplace_def )
 
 	CodeBody body = { nullptr };
 
-	if ( ! inplace_def || ! check(Tok_Identifier) )
+	b32 is_forward = ! inplace_def && name.Len && check( Tok_Statement_End );
+	if ( ! is_forward && ( ! inplace_def || ! check(Tok_Identifier) ) )
 	{
 		eat( Tok_BraceCurly_Open );
 		// <ModuleFlags> union <Attributes> <Name> {
@@ -5698,6 +5730,10 @@ CodeUnion parser_parse_union( bool inplace_def )
 					eat( Tok_Preprocess_EndIf );
 				break;
 
+				case Tok_Preprocess_Include:
+					member = cast(Code, parse_include());
+				break;
+
 				case Tok_Preprocess_Macro_Typename:
 					// Its a variable with a macro typename
 					member = cast(Code, parser_parse_variable());
diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index 0157cba..3c02c34 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -82,8 +82,10 @@ case Spec_External_Linkage: \
 case Spec_Global:           \
 case Spec_Inline:           \
 case Spec_ForceInline:      \
+case Spec_Internal_Linkage: \
 case Spec_Local_Persist:    \
 case Spec_Mutable:          \
+case Spec_NeverInline:      \
 case Spec_Static:           \
 case Spec_Thread_Local:     \
 case Spec_Volatile
-- 
2.43.0


From effbfb426d80e0be4a2749b4cd521736414519c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 26/53] fix: lexer, parser: look-aheads that count formatting,
 position of tokens after white space, blank define content

---
 base/components/lexer.cpp  | 33 ++++++++++++++++
 base/components/parser.cpp | 81 ++++++++++++++++++--------------------
 2 files changed, 71 insertions(+), 43 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index c84fb80..7673e21 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -94,6 +94,35 @@ Token* lex_next(TokArray self, bool skip_formatting)
 	return lex_at(self, idx);
 }
 
+// Index of the token that is num tokens behind the one at idx, without counting the formatting.
+internal
+s32 lex_idx_behind(TokArray self, s32 idx, s32 num)
+{
+	while ( num > 0 && idx >= 0 )
+	{
+		-- idx;
+		TokType type = lex_at(self, idx)->Type;
+		if ( type != Tok_NewLine && type != Tok_Comment )
+			-- num;
+	}
+	return idx;
+}
+
+// Index of the token that is num tokens ahead of the one at idx, without counting the formatting.
+internal
+s32 lex_idx_ahead(TokArray self, s32 idx, s32 num)
+{
+	s32 end = scast( s32, array_num(self.Arr));
+	while ( num > 0 && idx < end )
+	{
+		++ idx;
+		TokType type = lex_at(self, idx)->Type;
+		if ( type != Tok_NewLine && type != Tok_Comment )
+			-- num;
+	}
+	return idx;
+}
+
 enum
 {
 	Lex_Continue,
@@ -689,6 +718,10 @@ TokArray lex( Str content )
 		if ( c.left <= 0 )
 			break;
 
+		// The white space may have had line breaks
+		c.token.Line   = c.line;
+		c.token.Column = c.column;
+
 		switch ( (* ctx->scanner) )
 		{
 			case '#':
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 8493320..c57cfcb 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1214,6 +1214,7 @@ Code parse_complicated_definition( TokType which )
 	b32 is_fn_def  = false;
 
 	TokArray tokens = _ctx->parser.Tokens;
+	lex_current( & tokens, lex_skip_formatting );
 
 	s32 idx         = tokens.Idx;
 	s32 level       = 0;
@@ -1231,7 +1232,7 @@ Code parse_complicated_definition( TokType which )
 
 		// A parameter list, unlike an attribute's arguments, ends the declarator.
 		if ( level == 0 && tokens.Arr[ idx ].Type == Tok_Paren_Close && idx + 1 < array_num(tokens.Arr)
-		&&	( tokens.Arr[ idx + 1 ].Type == Tok_BraceCurly_Open || tok_is_specifier(tokens.Arr[ idx + 1 ]) ) )
+		&&	( lex_at( tokens, lex_idx_ahead( tokens, idx, 1 ))->Type == Tok_BraceCurly_Open || tok_is_specifier(* lex_at( tokens, lex_idx_ahead( tokens, idx, 1 ))) ) )
 			had_paren = true;
 
 		b32 found_fn_def = had_def && had_paren;
@@ -1242,11 +1243,11 @@ Code parse_complicated_definition( TokType which )
 
 	if ( which == Tok_Decl_Enum && ! had_def )
 	{
-		s32 name_idx = tokens.Idx + 1;
+		s32 name_idx = lex_idx_ahead( tokens, tokens.Idx, 1 );
 		if ( lex_at( tokens, name_idx )->Type == Tok_Decl_Class )
-			++ name_idx;
+			name_idx = lex_idx_ahead( tokens, name_idx, 1 );
 
-		if ( lex_at( tokens, name_idx )->Type == Tok_Identifier && lex_at( tokens, name_idx + 1 )->Type == Tok_Assign_Classifer )
+		if ( lex_at( tokens, name_idx )->Type == Tok_Identifier && lex_at( tokens, lex_idx_ahead( tokens, name_idx, 1 ))->Type == Tok_Assign_Classifer )
 		{
 			// Its a forward declaration of an enum
 			// <enum> <class> <type_identifier> : <UnderlyingType>;
@@ -1266,7 +1267,7 @@ Code parse_complicated_definition( TokType which )
 		return result;
 	}
 
-	if ( ( idx - 2 ) == tokens.Idx )
+	if ( lex_idx_behind( tokens, idx, 2 ) == tokens.Idx )
 	{
 		// It's a forward declaration only
 		Code result = parse_forward_or_definition( which, is_inplace );
@@ -1275,16 +1276,16 @@ Code parse_complicated_definition( TokType which )
 		return result;
 	}
 
-	Token tok = * lex_at( tokens, idx - 1 );
+	Token tok = * lex_at( tokens, lex_idx_behind( tokens, idx, 1 ));
 	if ( tok_is_specifier(tok) && spec_is_trailing( str_to_specifier( tok.Text)) )
 	{
 		// <which> <type_identifier>(...) <specifier> ...;
 
-		s32   spec_idx = idx - 1;
+		s32   spec_idx = lex_idx_behind( tokens, idx, 1 );
 		Token spec     = * lex_at( tokens, spec_idx );
 		while ( tok_is_specifier(spec) && spec_is_trailing( str_to_specifier( spec.Text)) )
 		{
-			-- spec_idx;
+			spec_idx = lex_idx_behind( tokens, spec_idx, 1 );
 			spec = * lex_at( tokens, spec_idx );
 		}
 
@@ -1305,7 +1306,7 @@ Code parse_complicated_definition( TokType which )
 	}
 	if ( tok.Type == Tok_Identifier )
 	{
-		tok = * lex_at( tokens, idx - 2 );
+		tok = * lex_at( tokens, lex_idx_behind( tokens, idx, 2 ));
 		bool is_indirection = tok.Type == Tok_Ampersand || tok.Type == Tok_Star;
 		bool ok_to_parse    = false;
 
@@ -1326,7 +1327,7 @@ Code parse_complicated_definition( TokType which )
 			parser_pop(& _ctx->parser);
 			return (Code) result;
 		}
-		else if ( which == Tok_Decl_Enum && tok.Type == Tok_Decl_Class && ( idx - 3 ) == tokens.Idx )
+		else if ( which == Tok_Decl_Enum && tok.Type == Tok_Decl_Class && lex_idx_behind( tokens, idx, 3 ) == tokens.Idx )
 		{
 			// Its a forward declaration of an enum class
 			// <enum> <class> <type_identifier>;
@@ -1334,7 +1335,7 @@ Code parse_complicated_definition( TokType which )
 			parser_pop(& _ctx->parser);
 			return result;
 		}
-		else if ( tok_is_attribute( * lex_at( tokens, tokens.Idx + 1 ) )
+		else if ( tok_is_attribute( * lex_at( tokens, lex_idx_ahead( tokens, tokens.Idx, 1 )) )
 		&&	( tok.Type == Tok_Attribute_Close || tok.Type == Tok_Paren_Close || tok_is_attribute( tok ) ) )
 		{
 			// Its a forward declaration with attributes
@@ -1343,15 +1344,15 @@ Code parse_complicated_definition( TokType which )
 			parser_pop(& _ctx->parser);
 			return result;
 		}
-		else if ( tok.Type == Tok_Identifier && lex_at( tokens, idx - 3 )->Type == which )
+		else if ( tok.Type == Tok_Identifier && lex_at( tokens, lex_idx_behind( tokens, idx, 3 ))->Type == which )
 		{
 			// Its a variable with type ID using <which> namespace.
 			// <which> <type_identifier> <identifier>;
 			ok_to_parse = true;
 		}
 		else if ( tok.Type == Tok_Assign_Classifer
-		&& (	( lex_at( tokens, idx - 5 )->Type == which && lex_at( tokens, idx - 4 )->Type == Tok_Decl_Class )
-			||	( lex_at( tokens, idx - 4 )->Type == which))
+		&& (	( lex_at( tokens, lex_idx_behind( tokens, idx, 5 ))->Type == which && lex_at( tokens, lex_idx_behind( tokens, idx, 4 ))->Type == Tok_Decl_Class )
+			||	( lex_at( tokens, lex_idx_behind( tokens, idx, 4 ))->Type == which))
 		)
 		{
 			// Its a forward declaration of an enum
@@ -1383,11 +1384,11 @@ Code parse_complicated_definition( TokType which )
 	}
 	else if ( tok.Type >= Tok_Type_Unsigned && tok.Type <= Tok_Type_MS_W64 )
 	{
-		tok = * lex_at( tokens, idx - 2 );
+		tok = * lex_at( tokens, lex_idx_behind( tokens, idx, 2 ));
 
 		if ( tok.Type != Tok_Assign_Classifer
-		|| (	( lex_at( tokens, idx - 5 )->Type != which && lex_at( tokens, idx - 4 )->Type != Tok_Decl_Class )
-			&&	( lex_at( tokens, idx - 4 )->Type != which))
+		|| (	( lex_at( tokens, lex_idx_behind( tokens, idx, 5 ))->Type != which && lex_at( tokens, lex_idx_behind( tokens, idx, 4 ))->Type != Tok_Decl_Class )
+			&&	( lex_at( tokens, lex_idx_behind( tokens, idx, 4 ))->Type != which))
 		)
 		{
 			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
@@ -2032,6 +2033,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		TODO(Ed): We could fix this by attempting to parse a type, but we would have to have a way to have it soft fail and rollback.
 	*/
 	TokArray tokens = _ctx->parser.Tokens;
+	lex_current( & tokens, lex_skip_formatting );
 
 	s32   idx = tokens.Idx;
 	Token nav = NullToken;
@@ -2079,10 +2081,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			return result;
 	}
 
-	if ( idx >= array_num(tokens.Arr) || idx - 2 < tokens.Idx )
+	if ( idx >= array_num(tokens.Arr) || lex_idx_behind( tokens, idx, 2 ) < tokens.Idx )
 		return result;
 
-	-- idx;
+	idx = lex_idx_behind( tokens, idx, 1 );
 	Token tok_right = tokens.Arr[idx];
 	Token tok_left  = NullToken;
 
@@ -2092,7 +2094,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		return result;
 	}
 
-	-- idx;
+	idx = lex_idx_behind( tokens, idx, 1 );
 	tok_left = tokens.Arr[idx];
 	// <Attributes> <Specifiers> ... <Identifier>
 
@@ -2100,14 +2102,14 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	if ( tok_left.Type == Tok_Operator && tok_left.Text.Ptr[0] == '~' && idx > tokens.Idx )
 	{
 		possible_destructor = true;
-		-- idx;
+		idx = lex_idx_behind( tokens, idx, 1 );
 		tok_left = tokens.Arr[idx];
 	}
 
 	if ( tok_left.Type != Tok_Access_StaticSymbol || idx == tokens.Idx )
 		return result;
 
-	-- idx;
+	idx = lex_idx_behind( tokens, idx, 1 );
 	tok_left = tokens.Arr[idx];
 	// <Attributes> <Specifiers> ... :: <Identifier>
 
@@ -2133,7 +2135,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		if ( capture_level == 0 && template_level == 0  && tok_left.Type == Tok_Identifier )
 			break;
 
-		-- idx;
+		idx = lex_idx_behind( tokens, idx, 1 );
 		tok_left = tokens.Arr[idx];
 	}
 
@@ -2538,12 +2540,7 @@ CodeOperator parse_operator_after_ret_type(
 				eat( Tok_Identifier );
 				was_new_or_delete = true;
 
-				s32 idx = _ctx->parser.Tokens.Idx + 1;
-				{
-					while ( lex_at( _ctx->parser.Tokens, idx )->Type == Tok_NewLine )
-						idx++;
-				}
-				Token next = * lex_at( _ctx->parser.Tokens, idx );
+				Token next = nexttok;
 				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
 				{
 					eat(Tok_Operator);
@@ -2562,12 +2559,7 @@ CodeOperator parse_operator_after_ret_type(
 				eat(Tok_Identifier);
 				was_new_or_delete = true;
 
-				s32 idx = _ctx->parser.Tokens.Idx + 1;
-				{
-					while ( lex_at( _ctx->parser.Tokens, idx )->Type == Tok_NewLine )
-						idx++;
-				}
-				Token next = * lex_at( _ctx->parser.Tokens, idx );
+				Token next = nexttok;
 				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
 				{
 					eat(Tok_Operator);
@@ -2789,7 +2781,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 				if (level == 0 && tok.Type == Tok_Paren_Close)
 					break;
 			}
-			++ idx; // Will incremnt to possible comma position
+			idx = lex_idx_ahead( _ctx->parser.Tokens, idx, 1 ); // Will incremnt to possible comma position
 
 			if ( lex_at( _ctx->parser.Tokens, idx )->Type != Tok_Comma )
 				break;
@@ -3859,8 +3851,10 @@ CodeDefine parser_parse_define()
 		return InvalidCode;
 	}
 
-	if ( currtok.Text.Len == 0 )
+	Str content = strbuilder_to_str( parser_strip_formatting( currtok.Text, parser_strip_formatting_dont_preserve_newlines ));
+	if ( content.Len == 0 )
 	{
+		// There is nothing or only white space.
 		define->Body = untyped_str( txt("\n") );
 		eat( Tok_Preprocess_Content );
 		// #define <Name> ( <params> ) <Content>
@@ -3869,7 +3863,7 @@ CodeDefine parser_parse_define()
 		return define;
 	}
 
-	define->Body = untyped_str( strbuilder_to_str( parser_strip_formatting( currtok.Text, parser_strip_formatting_dont_preserve_newlines )) );
+	define->Body = untyped_str( content );
 	eat( Tok_Preprocess_Content );
 	// #define <Name> ( <params> ) <Content>
 
@@ -5470,6 +5464,7 @@ CodeTypedef parser_parse_typedef()
 		if ( is_complicated )
 		{
 			TokArray tokens = _ctx->parser.Tokens;
+			lex_current( & tokens, lex_skip_formatting );
 			TokType  which  = currtok.Type;
 
 			s32 idx = tokens.Idx;
@@ -5487,7 +5482,7 @@ CodeTypedef parser_parse_typedef()
 			}
 
 			Token pre_foward_tok = currtok;
-			if ( (idx - 3 ) == tokens.Idx )
+			if ( lex_idx_behind( tokens, idx, 3 ) == tokens.Idx )
 			{
 				// Its a forward declaration only
 				type = parse_forward_or_definition( which, from_typedef );
@@ -5495,18 +5490,18 @@ CodeTypedef parser_parse_typedef()
 			}
 			else
 			{
-				Token tok = tokens.Arr[ idx - 1 ];
+				Token tok = * lex_at( tokens, lex_idx_behind( tokens, idx, 1 ));
 				if ( tok.Type == Tok_Identifier )
 				{
 					log_fmt("Found id\n");
-					tok = tokens.Arr[ idx - 2 ];
+					tok = * lex_at( tokens, lex_idx_behind( tokens, idx, 2 ));
 
 					bool is_indirection = tok.Type == Tok_Ampersand
 					||                    tok.Type == Tok_Star;
 
 					bool ok_to_parse = false;
 
-					Token temp_3 = tokens.Arr[ idx - 3 ];
+					Token temp_3 = * lex_at( tokens, lex_idx_behind( tokens, idx, 3 ));
 
 					if ( tok.Type == Tok_BraceCurly_Close )
 					{
@@ -5514,7 +5509,7 @@ CodeTypedef parser_parse_typedef()
 						// typedef <which> <type_identifier> { ... } <identifier>;
 						ok_to_parse = true;
 					}
-					else if ( tok.Type == Tok_Identifier && tokens.Arr[ idx - 3 ].Type == which )
+					else if ( tok.Type == Tok_Identifier && lex_at( tokens, lex_idx_behind( tokens, idx, 3 ))->Type == which )
 					{
 						// Its a variable with type ID using which namespace.
 						// typedef <which> <type_identifier> <identifier>;
-- 
2.43.0


From 8be5dda6640be6eb9c63af1eeff4b270241194e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 27/53] fix: parser: functions whose first parameter is nothing
 but a type

---
 base/components/parser.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c57cfcb..fca4486 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2757,6 +2757,28 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		ahead.Idx++;
 		bool detected_comma = lex_next( ahead, lex_skip_formatting )->Type == Tok_Comma;
 
+		if ( detected_capture && detected_comma )
+		{
+			// A parameter may also be nothing but a type: its a function if that type can't be a value
+			// or if what comes after the capture can't be after a variable.
+			TokType first = nexttok.Type;
+			if ( first >= Tok_Type_Unsigned && first <= Tok_Type_MS_W64 )
+				detected_comma = false;
+
+			TokArray past  = _ctx->parser.Tokens;
+			s32      level = 0;
+			for ( ; past.Idx < scast(s32, array_num(past.Arr)); past.Idx++ )
+			{
+				if ( past.Arr[ past.Idx ].Type == Tok_Paren_Open )
+					level++;
+				if ( past.Arr[ past.Idx ].Type == Tok_Paren_Close && -- level == 0 )
+					break;
+			}
+			Token after = * lex_next( past, lex_skip_formatting );
+			if ( after.Type == Tok_BraceCurly_Open || tok_is_specifier( after ) )
+				detected_comma = false;
+		}
+
 		b32   detected_non_varadic_unpaired_param = detected_comma && nexttok.Type != Tok_Varadic_Argument;
 		if (! detected_non_varadic_unpaired_param && nexttok.Type ==  Tok_Preprocess_Macro_Expr) for( s32 break_scope = 0; break_scope == 0; ++ break_scope)
 		{
-- 
2.43.0


From aede9bdc6bd185b58d3a7c15b9b600359dc84bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 28/53] fix: class and struct bodies made upfront refused
 member function declarations

---
 base/components/ast_case_macros.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/components/ast_case_macros.cpp b/base/components/ast_case_macros.cpp
index f7f66c2..7016cd5 100644
--- a/base/components/ast_case_macros.cpp
+++ b/base/components/ast_case_macros.cpp
@@ -6,7 +6,6 @@
 	case CT_Enum_Body:                           \
 	case CT_Extern_Linkage:                      \
 	case CT_Function_Body:                       \
-	case CT_Function_Fwd:                        \
 	case CT_Global_Body:                         \
 	case CT_Namespace:                           \
 	case CT_Namespace_Body:                      \
-- 
2.43.0


From b486c022c369ab00ece9cd27b97241189d563eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 29/53] fix: upfront constructors: kinds of arguments that were
 not validated, typedefs without a name

---
 base/components/interface.upfront.cpp | 33 ++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 754f3fc..3182beb 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -525,6 +525,11 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_class: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeClass
 	result               = (CodeClass) make_code();
@@ -569,6 +574,11 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.params && p.params->Type != CT_Parameters_Define ) {
+		log_failure( "gen::def_define: params was not a `Parameters_Define` type: %S", code_debug_str(p.params) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	CodeDefine
 	result          = (CodeDefine) make_code();
 	result->Type    = CT_Preprocess_Define;
@@ -874,6 +884,11 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 		return InvalidCode;
 	}
 
+	if ( p.params && p.params->Type != CT_Parameters ) {
+		log_failure( "gen::def_operator: params was provided but its not of parameters type: %S", code_debug_str(p.params) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	OpValidateResult check_result = operator__validate( op, p.params, p.ret_type, p.specifiers );
 	if ( check_result == OpValResult_Fail ) {
 		return InvalidCode;
@@ -939,6 +954,11 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specs && p.specs->Type != CT_Specifiers ) {
+		log_failure( "gen::def_operator_cast: specs is not of specifiers type - %S", code_debug_str(p.specs) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeOpCast result = (CodeOpCast) make_code();
 	if (p.body)
@@ -1053,6 +1073,11 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_struct: specifiers was not a `Specifiers` type - %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeStruct
 	result              = (CodeStruct) make_code();
@@ -1183,7 +1208,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 
 	// Registering the type.
 	CodeTypename registered_type = def_type( name );
-	if ( ! registered_type ) {
+	if ( ! registered_type || registered_type->Type == CT_Invalid ) {
 		log_failure( "gen::def_typedef: failed to register type" );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
@@ -1247,6 +1272,12 @@ CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 		return InvalidCode;
 	}
 
+	if ( type->Type != CT_Typename ) {
+		log_failure( "gen::def_using: type is not a typename - %S", code_debug_str(type) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
 	CodeTypename register_type = def_type( name );
 	if ( ! register_type ) {
 		log_failure( "gen::def_using: failed to register type" );
-- 
2.43.0


From 25c0eb96fe7ecdfa5e257abb8022a33542577acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 30/53] fix: specifiers_remove: repeated specifiers, full lists

---
 base/components/inlines.hpp | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index edc4d7c..3dd6221 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -662,37 +662,15 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 {
 	if ( self == nullptr )
 	{
-		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
-		return -1;
-	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
+		log_failure("CodeSpecifiers: Attempted to remove from a null specifiers AST!");
 		return -1;
 	}
 
-	s32 result = -1;
-
-	s32 curr = 0;
-	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
-	{
-		Specifier spec = self->ArrSpecs[next];
-		if (spec == to_remove)
-		{
-			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
-
-			spec = self->ArrSpecs[next];
-		}
-
-		self->ArrSpecs[ curr ] = spec;
-	}
-
+	s32 result = specifiers_index_of(self, to_remove);
 	if (result > -1) {
+		for ( s32 curr = result; curr < self->NumEntries - 1; ++ curr )
+			self->ArrSpecs[ curr ] = self->ArrSpecs[ curr + 1 ];
+
 		self->NumEntries --;
 	}
 	return result;
-- 
2.43.0


From 1bda554e510aafff6747b40a1a596ead32d8f2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 31/53] fix: scan_file, file_read_contents and memory streams:
 unfinished directives, uninitialised results, cursor

---
 base/auxiliary/scanner.cpp       |  3 +++
 base/dependencies/filesystem.cpp | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index 37a37a7..d2a5dfa 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -105,6 +105,9 @@ Code scan_file( char const* path )
 
 					break;
 				}
+
+				// What follows the hash may itself have to be looked at.
+				continue;
 			}
 
 			move_fwd();
diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 1cad965..4af7236 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -437,6 +437,8 @@ FileContents file_read_contents( AllocatorInfo a, b32 zero_terminate, char const
 	FileInfo     file  ;
 
 	result.allocator = a;
+	result.data      = nullptr;
+	result.size      = 0;
 
 	if ( file_open( &file, filepath ) == EFileError_NONE )
 	{
@@ -505,6 +507,7 @@ b8 file_stream_new( FileInfo* file, AllocatorInfo allocator )
 	d->allocator = allocator;
 	d->flags     = EFileStream_CLONE_WRITABLE;
 	d->cap       = 0;
+	d->cursor    = 0;
 	d->buf       = array_init( u8, allocator );
 
 	if ( ! d->buf )
@@ -529,6 +532,7 @@ b8 file_stream_open( FileInfo* file, AllocatorInfo allocator, u8* buffer, ssize
 	d->magic     = GEN__FILE_STREAM_FD_MAGIC;
 	d->allocator = allocator;
 	d->flags     = flags;
+	d->cursor    = 0;
 	if ( d->flags & EFileStream_CLONE_WRITABLE )
 	{
 		Array(u8) arr = array_init_reserve(u8, allocator, size );
@@ -587,6 +591,12 @@ GEN_FILE_READ_AT_PROC( _memory_file_read )
 {
 	// unused( stop_at_newline );
 	_memory_fd* d = _file_stream_from_fd( fd );
+
+	if ( offset < 0 || offset > d->cap )
+		return false;
+
+	// There is no more than the buffer holds.
+	size = min( size, d->cap - scast(ssize, offset) );
 	mem_copy( buffer, d->buf + offset, size );
 	if ( bytes_read )
 		*bytes_read = size;
@@ -601,6 +611,9 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 	if ( ! ( d->flags & ( EFileStream_CLONE_WRITABLE | EFileStream_WRITABLE ) ) )
 		return false;
 
+	if ( offset < 0 || offset > d->cap )
+		return false;
+
 	ssize buflen   = d->cap;
 	ssize extralen = max( 0, size - ( buflen - offset ) );
 	ssize rwlen    = size - extralen;
@@ -612,6 +625,8 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 
 		if ( array_get_header(arr)->Capacity < scast(usize, new_cap) )
 		{
+			// What has been written is kept when the array moves.
+			array_get_header(arr)->Num = buflen;
 			if ( ! array_grow( & arr, ( s64 )( new_cap ) ) )
 				return false;
 			d->buf = arr;
@@ -626,7 +641,7 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 
 		mem_copy( d->buf + offset + rwlen, pointer_add_const( buffer, rwlen ), extralen );
 		d->cap = new_cap;
-		array_get_header(arr)->Capacity = new_cap;
+		array_get_header(arr)->Num = new_cap;
 	}
 	else
 	{
-- 
2.43.0


From 545f9637c127231b9dcfc6e6d39bde323e2abaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 32/53] fix: csv: empty last fields, rows of other lengths,
 empty quoted fields, header style

---
 base/dependencies/parsing.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce13e23..baaf1da 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -821,14 +821,16 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 	char* endChar;
 
 	ssize columnIndex       = 0;
-	ssize totalColumnIndex = 0;
+	ssize totalColumnIndex = -1; // Not known until the first row has ended.
 
+	char delimiter = 0;
 	do
 	{
-		char delimiter = 0;
-		currentChar = ccast( char*, c_str_trim( currentChar, false ));
+		// Only a row may be preceded by empty lines, the last field of one may be empty.
+		currentChar = ccast( char*, c_str_trim( currentChar, columnIndex > 0 ));
+		delimiter   = 0;
 
-		if ( *currentChar == 0 )
+		if ( *currentChar == 0 && columnIndex == 0 )
 			break;
 
 		ADT_Node rowItem = { 0 };
@@ -875,7 +877,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			/* unescape escaped quotes (so that unescaped text escapes :) */
 			{
 				char* escapedChar = beginChar;
-				do
+				while ( *escapedChar )
 				{
 					if ( *escapedChar == '"' && *( escapedChar + 1 ) == '"' )
 					{
@@ -883,10 +885,9 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 					}
 					escapedChar++;
 				}
-				while ( *escapedChar );
 			}
 		}
-		else if ( *currentChar == delim )
+		else if ( *currentChar == delim || *currentChar == '\n' || *currentChar == 0 )
 		{
 			delimiter      = * currentChar;
 			rowItem.string = "";
@@ -920,6 +921,13 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			{
 				delimiter   = 0;
 				currentChar = endChar;
+
+				while ( char_is_space( *( endChar - 1 ) ) )
+				{
+					endChar--;
+				}
+
+				* endChar = 0;
 			}
 
 			/* check if number and process if so */
@@ -965,7 +973,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 		else if ( delimiter == '\n' || delimiter == 0 )
 		{
 			/* check if number of rows is not mismatched */
-			if ( totalColumnIndex < columnIndex )
+			if ( totalColumnIndex < 0 )
 				totalColumnIndex = columnIndex;
 
 			else if ( totalColumnIndex != columnIndex )
@@ -981,7 +989,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 				currentChar++;
 		}
 	}
-	while ( *currentChar );
+	while ( *currentChar || delimiter == delim );
 
 	if (array_num( root->nodes) == 0 )
 	{
@@ -998,6 +1006,9 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			CSV_Object* col = root->nodes + i;
 			CSV_Object* hdr = col->nodes;
 			col->name       = hdr->string;
+		#ifndef GEN_PARSER_DISABLE_ANALYSIS
+			col->name_style = hdr->name_style;
+		#endif
 			array_remove_at(col->nodes, 0 );
 		}
 	}
-- 
2.43.0


From 8e7178e7830f837f1414faf6cb014e17428b8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 33/53] fix: parse entry points: exports, internal variables,
 templates and casts; untyped_token_fmt always failed

---
 base/components/code_serialization.cpp |  2 +-
 base/components/interface.parsing.cpp  | 42 +++++++++++++++++++++++++-
 base/components/interface.untyped.cpp  |  3 +-
 base/components/parser.cpp             |  2 +-
 base/components/parser_case_macros.cpp |  1 +
 5 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index f85b2e2..8d29e11 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -59,7 +59,7 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 		curr = curr->Next;
 	}
 
-	strbuilder_append_fmt( result, "};\n" );
+	strbuilder_append_fmt( result, "}\n" );
 }
 
 StrBuilder constructor_to_strbuilder(CodeConstructor self)
diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index ae4d66e..7361b4d 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -227,7 +227,47 @@ CodeOpCast parse_operator_cast( Str def )
 		return InvalidCode;
 
 	_ctx->parser.Tokens = toks;
-	return parser_parse_operator_cast(NullCode);
+
+	CodeSpecifiers specifiers = NullCode;
+	Specifier      specs_found[ 16 ] = { Spec_NumSpecifiers };
+	s32            NumSpecifiers = 0;
+
+	while ( left && tok_is_specifier(currtok) )
+	{
+		Specifier spec = str_to_specifier( currtok.Text );
+
+		switch ( spec )
+		{
+			case Spec_Constexpr :
+			case Spec_Explicit :
+			case Spec_Inline :
+			case Spec_ForceInline :
+			case Spec_NeverInline :
+				break;
+
+			default :
+				log_failure( "Invalid specifier %S for operator cast\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
+				return InvalidCode;
+		}
+
+		if ( NumSpecifiers == count_of(specs_found) )
+		{
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			return InvalidCode;
+		}
+
+		specs_found[ NumSpecifiers ] = spec;
+		NumSpecifiers++;
+		eat( currtok.Type );
+	}
+
+	if ( NumSpecifiers )
+	{
+		specifiers = def_specifiers_arr( NumSpecifiers, specs_found );
+		// <specifiers> ...
+	}
+
+	return parser_parse_operator_cast( specifiers );
 }
 
 CodeStruct parse_struct( Str def )
diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 1488088..15d0a59 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -167,8 +167,9 @@ Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... )
 
 	Code
 	result          = make_code();
+	result->Name    = cache_str( buf_str );
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( buf_str );
+	result->Content = result->Name;
 
 	if ( result->Name.Len == 0 )
 	{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index fca4486..f4e5877 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4868,7 +4868,7 @@ CodeTemplate parser_parse_template()
 
 
 		bool has_context         = _ctx->parser.Scope && _ctx->parser.Scope->Prev;
-		bool is_in_global_nspace = has_context && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
+		bool is_in_global_nspace = ! has_context || str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
 		// Possible constructor implemented at global file scope.
 		if (is_in_global_nspace)
 		{
diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index 3c02c34..8566ac6 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -97,6 +97,7 @@ case Spec_Constinit:        \
 case Spec_External_Linkage: \
 case Spec_Global:           \
 case Spec_Inline:           \
+case Spec_Internal_Linkage: \
 case Spec_Local_Persist:    \
 case Spec_Mutable:          \
 case Spec_Restrict:         \
-- 
2.43.0


From 7f22d9fe3a3602261b9dfa8ef1e29635da8ce6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 34/53] fix: words of directives and hash collisions taken for
 keywords; spelling of class, macrotype_to_str

---
 base/components/gen/ecodetypes.hpp |  2 +-
 base/components/gen/especifier.hpp |  2 +-
 base/components/gen/etoktype.hpp   |  2 +-
 base/components/lexer.cpp          | 33 ++++++++++++++++++++++++++++--
 base/components/parser_types.hpp   |  4 ++--
 base/components/types.hpp          |  2 +-
 base/enums/ECodeTypes.csv          |  2 +-
 base/helpers/base_codegen.hpp      |  4 ++--
 8 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/base/components/gen/ecodetypes.hpp b/base/components/gen/ecodetypes.hpp
index 139e615..7d2b088 100644
--- a/base/components/gen/ecodetypes.hpp
+++ b/base/components/gen/ecodetypes.hpp
@@ -154,7 +154,7 @@ inline Str codetype_to_keyword_str(CodeType type)
 		{ "public",          sizeof("public") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "class",           sizeof("class") - 1           },
-		{ "clsss",           sizeof("clsss") - 1           },
+		{ "class",           sizeof("class") - 1           },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index e03e9d4..6f4ffcb 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -102,7 +102,7 @@ inline Specifier str_to_specifier(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Spec_NumSpecifiers; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(str, spec_to_str((Specifier)index)))
 			return (Specifier)index;
 	}
 	return Spec_Invalid;
diff --git a/base/components/gen/etoktype.hpp b/base/components/gen/etoktype.hpp
index 1b2c17c..77378d0 100644
--- a/base/components/gen/etoktype.hpp
+++ b/base/components/gen/etoktype.hpp
@@ -230,7 +230,7 @@ inline TokType str_to_toktype(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Tok_NumTokens; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(str, toktype_to_str((TokType)index)))
 			return (TokType)index;
 	}
 	return Tok_Invalid;
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 7673e21..e47fd4b 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -569,8 +569,37 @@ void lex_found_token( LexContext* ctx )
 
 	TokType type = str_to_toktype( ctx->token.Text );
 
-	if (type == Tok_Preprocess_Define || type == Tok_Preprocess_Include) {
-		ctx->token.Flags |= TF_Identifier;
+	// The words of the directives have no meaning outside of them,
+	// and the placeholders of the tokens without a text of their own have none at all.
+	switch ( type )
+	{
+		case Tok_Comment:
+		case Tok_Comment_End:
+		case Tok_Comment_Start:
+		case Tok_Char:
+		case Tok_NewLine:
+		case Tok_Number:
+		case Tok_Operator:
+		case Tok_Preprocess_Define:
+		case Tok_Preprocess_Define_Param:
+		case Tok_Preprocess_IfDef:
+		case Tok_Preprocess_IfNotDef:
+		case Tok_Preprocess_ElIf:
+		case Tok_Preprocess_EndIf:
+		case Tok_Preprocess_Include:
+		case Tok_Preprocess_Pragma:
+		case Tok_Preprocess_Content:
+		case Tok_Preprocess_Macro_Expr:
+		case Tok_Preprocess_Macro_Stmt:
+		case Tok_Preprocess_Macro_Typename:
+		case Tok_Preprocess_Unsupported:
+		case Tok_String:
+		case Tok___Attributes_Start:
+			type = Tok_Invalid;
+		break;
+
+		default:
+		break;
 	}
 
 	if (type <= Tok_Access_Public && type >= Tok_Access_Private ) {
diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index eebdb3f..aea44bc 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -152,15 +152,15 @@ Str macrotype_to_str( MacroType type )
 {
 	local_persist
 	Str lookup[] = {
-		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Expression",       sizeof("Expression")       - 1 },
+		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Typename",         sizeof("Typename")         - 1 },
 		{ "Block_Start",      sizeof("Block_Start")      - 1 },
 		{ "Block_End",        sizeof("Block_End")        - 1 },
 		{ "Case_Statement",   sizeof("Case_Statement")   - 1 },
 	};
 	local_persist
-	Str invalid = { "Invalid", sizeof("Invalid") };
+	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
 	if ( type > MT_Case_Statement )
 		return invalid;
 
diff --git a/base/components/types.hpp b/base/components/types.hpp
index f20e2ce..5bba602 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -107,7 +107,7 @@ Str module_flag_to_str( ModuleFlag flag )
 	};
 
 	local_persist
-	Str invalid_flag = { "invalid", sizeof("invalid") };
+	Str invalid_flag = { "invalid", sizeof("invalid") - 1 };
 	if ( flag > ModuleFlag_Import )
 		return invalid_flag;
 
diff --git a/base/enums/ECodeTypes.csv b/base/enums/ECodeTypes.csv
index d1ca2d6..e3f31aa 100644
--- a/base/enums/ECodeTypes.csv
+++ b/base/enums/ECodeTypes.csv
@@ -7,7 +7,7 @@ Access_Protected,    "protected"
 Access_Public,       "public"
 PlatformAttributes,  "__NA__"
 Class,               "class"
-Class_Fwd,           "clsss"
+Class_Fwd,           "class"
 Class_Body,          "__NA__"
 Constructor,         "__NA__"
 Constructor_Fwd,     "__NA__"
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 533acfc..7069da7 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -278,7 +278,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 
 			for ( u32 index = 0; index < Spec_NumSpecifiers; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( str, spec_to_str( (Specifier)index ) ) )
 					return (Specifier)index;
 			}
 
@@ -435,7 +435,7 @@ CodeBody gen_etoktype( char const* etok_path, char const* attr_path, bool use_c_
 
 			for ( u32 index = 0; index < Tok_NumTokens; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( str, toktype_to_str( (TokType)index ) ) )
 					return (TokType)index;
 			}
 
-- 
2.43.0


From 3cbfe6d0bf28d282e5238ddd7773945aa1ec025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 35/53] fix: body_to_strbuilder advanced to the adjacent node
 instead of the next entry in the C library

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 3dd6221..3624674 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -38,7 +38,7 @@ void body_to_strbuilder_ref( CodeBody body, StrBuilder* result )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 }
 
-- 
2.43.0


From baba78fe188c4cba0c92ac10dfbbd2ee667371e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 36/53] fix: C library: array insertion and release, hash table
 lookup and rehash, spelling of static_assert and thread_local

---
 gen_c_library/c_library.cpp                   | 30 +++++++++++++++++--
 gen_c_library/components/containers.array.hpp | 14 ++++-----
 .../components/containers.hashtable.hpp       |  7 +++--
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/gen_c_library/c_library.cpp b/gen_c_library/c_library.cpp
index 591d79c..09deaec 100644
--- a/gen_c_library/c_library.cpp
+++ b/gen_c_library/c_library.cpp
@@ -57,6 +57,32 @@ Code refactor_and_format( Code code ) {
 	return code_refactor_and_format(code, scratch_file, path_refactor_script, path_format_style );
 }
 
+// The refactor also renames words within string literals.
+// The spelling of a keyword the library reads and prints has to stay the one the language uses.
+Code restore_keyword_spelling( Code code ) {
+	Str renamed[] = { txt("\"gen_static_assert\""), txt("\"gen_thread_local\"") };
+
+	Str        content = code->Content;
+	StrBuilder result  = StrBuilder::make_reserve( heap(), content.Len );
+	for ( ssize idx = 0; idx < content.Len; )
+	{
+		Str   rest = { content.Ptr + idx, content.Len - idx };
+		ssize skip = 0;
+		for ( Str entry : renamed )
+			if ( rest.Len >= entry.Len && c_str_compare_len( rest.Ptr, entry.Ptr, entry.Len ) == 0 )
+				skip = sizeof("\"gen_") - 1;
+
+		if ( skip ) {
+			result.append( '"' );
+			idx += skip;
+			continue;
+		}
+		result.append( rest.Ptr[0] );
+		++ idx;
+	}
+	return untyped_str( result.to_str() );
+}
+
 constexpr bool helper_use_c_definition = true;
 
 int gen_main()
@@ -1667,7 +1693,7 @@ R"(#define <interface_name>( code ) _Generic( (code), \
 	Code rf_parser_types = refactor_and_format(parser_types);
 	Code rf_ecode        = refactor_and_format(ecode);
 	Code rf_eoperator    = refactor_and_format(eoperator);
-	Code rf_especifier   = refactor_and_format(especifier);
+	Code rf_especifier   = restore_keyword_spelling( refactor_and_format(especifier) );
 	Code rf_ast          = refactor_and_format(ast);
 	Code rf_code_types   = refactor_and_format(code_types);
 	Code rf_ast_types    = refactor_and_format(ast_types);
@@ -1710,7 +1736,7 @@ R"(#define <interface_name>( code ) _Generic( (code), \
 	Code r_src_untyped          = refactor(src_untyped);
 
 	CodeBody etoktype    = gen_etoktype( path_base "enums/ETokType.csv", path_base "enums/AttributeTokens.csv", helper_use_c_definition );
-	Code     rf_etoktype = refactor_and_format(etoktype);
+	Code     rf_etoktype = restore_keyword_spelling( refactor_and_format(etoktype) );
 
 	Code rf_src_builder = refactor_and_format( src_builder );
 	Code rf_src_scanner = refactor_and_format( scan_file( path_base "auxiliary/scanner.cpp" ));
diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index a7314b6..d47d695 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -159,11 +159,8 @@ CodeBody gen_array( Str type, Str array_name )
 			GEN_ASSERT(* self != nullptr);
 			ArrayHeader* header = array_get_header( * self );
 
-			if ( idx >= header->Num )
-				idx = header->Num - 1;
-
-			if ( idx < 0 )
-				idx = 0;
+			if ( idx > header->Num )
+				idx = header->Num;
 
 			if ( header->Capacity < header->Num + 1 )
 			{
@@ -176,6 +173,7 @@ CodeBody gen_array( Str type, Str array_name )
 			<array_type> target = (* self) + idx;
 
 			mem_move( target + 1, target, (header->Num - idx) * sizeof(<type>) );
+			* target = item;
 			header->Num++;
 
 			return true;
@@ -193,7 +191,7 @@ CodeBody gen_array( Str type, Str array_name )
 				return array_append_items( * self, items, item_num );
 			}
 
-			if ( item_num > header->Capacity )
+			if ( header->Num + item_num > header->Capacity )
 			{
 				if ( ! array_grow( self, item_num + header->Capacity ) )
 					return false;
@@ -254,7 +252,7 @@ CodeBody gen_array( Str type, Str array_name )
 			GEN_ASSERT(* self != nullptr);
 			ArrayHeader* header = array_get_header( * self );
 			allocator_free( header->Allocator, header );
-			self = NULL;
+			* self = NULL;
 		}
 
 		inline
@@ -362,7 +360,7 @@ CodeBody gen_array( Str type, Str array_name )
 			mem_move( new_header, header, sizeof( ArrayHeader ) + sizeof( <type> ) * header->Num );
 			new_header->Capacity = new_capacity;
 
-			allocator_free( header->Allocator, & header );
+			allocator_free( header->Allocator, header );
 
 			* self = cast( <type>*, new_header + 1 );
 			return true;
diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 8303eb7..67db318 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -149,7 +149,7 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			GEN_ASSERT_NOT_NULL(self.Hashes);
 			GEN_ASSERT_NOT_NULL(self.Entries);
 			ssize idx = <fn>__find( self, key ).EntryIndex;
-			if ( idx > 0 )
+			if ( idx >= 0 )
 				return & self.Entries[idx].Value;
 
 			return nullptr;
@@ -198,11 +198,11 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			ArrayHeader* old_hash_header    = array_get_header( self->Hashes );
 			ArrayHeader* old_entries_header = array_get_header( self->Entries );
 
-			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, old_hash_header->Num );
+			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, new_num );
 
 			ArrayHeader* new_hash_header = array_get_header( new_tbl.Hashes );
 
-			for (ssize idx = 0; idx < cast(ssize, old_hash_header->Num); ++idx)
+			for (ssize idx = 0; idx < cast(ssize, old_entries_header->Num); ++idx)
 			{
 				<entry_type>* entry = & self->Entries[idx];
 				HT_FindResult find_result;
@@ -385,6 +385,7 @@ R"(#define GENERIC_SLOT_<slot>__hashtable_init          <type>,      <tbl_type>_
 #define GENERIC_SLOT_<slot>__hashtable_grow             <tbl_type>*, <tbl_type>_grow
 #define GENERIC_SLOT_<slot>__hashtable_rehash           <tbl_type>*, <tbl_type>_rehash
 #define GENERIC_SLOT_<slot>__hashtable_rehash_fast      <tbl_type>,  <tbl_type>_rehash_fast
+#define GENERIC_SLOT_<slot>__hashtable_remove           <tbl_type>,  <tbl_type>_remove
 #define GENERIC_SLOT_<slot>__hashtable_remove_entry     <tbl_type>,  <tbl_type>_remove_entry
 #define GENERIC_SLOT_<slot>__hashtable_set              <tbl_type>,  <tbl_type>_set
 #define GENERIC_SLOT_<slot>__hashtable_slot             <tbl_type>,  <tbl_type>_slot
-- 
2.43.0


From 451f15dfc2dcf68db468d231cf2cf2e8c41cd10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:58 +0000
Subject: [PATCH 37/53] fix: Unreal variant refused internal variables and
 neverinline members that base accepts

---
 gen_unreal_engine/components/parser_case_macros.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen_unreal_engine/components/parser_case_macros.cpp b/gen_unreal_engine/components/parser_case_macros.cpp
index 4020555..3fb32b3 100644
--- a/gen_unreal_engine/components/parser_case_macros.cpp
+++ b/gen_unreal_engine/components/parser_case_macros.cpp
@@ -88,8 +88,10 @@ case Spec_Global:                 \
 case Spec_Inline:                 \
 case Spec_ForceInline:            \
 case Spec_ForceInline_Debuggable: \
+case Spec_Internal_Linkage:       \
 case Spec_Local_Persist:          \
 case Spec_Mutable:                \
+case Spec_NeverInline:            \
 case Spec_Static:                 \
 case Spec_Thread_Local:           \
 case Spec_Volatile
@@ -101,6 +103,7 @@ case Spec_Constinit:        \
 case Spec_External_Linkage: \
 case Spec_Global:           \
 case Spec_Inline:           \
+case Spec_Internal_Linkage: \
 case Spec_Local_Persist:    \
 case Spec_Mutable:          \
 case Spec_Static:           \
-- 
2.43.0


From 2580a2ce40b4113f767e78487dc104c5310d48b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 38/53] fix: statement macros ran into what follows them, took
 no ; in unions and definitions, and attribute macros were refused at
 namespace scope

---
 base/components/parser.cpp | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f4e5877..a8d5bf4 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1879,9 +1879,9 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Preprocess_Macro_Expr: 
 			{
-				if (tok_is_attribute(currtok))
+				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in namespace body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -3328,29 +3328,11 @@ Code parse_simple_preprocess( TokType which )
 			// Do nothing
 			goto Leave_Scope_Early;
 		}
-		else if (macro && macro->Type == MT_Typename && str_contains(calling_proc, txt("parser_parse_typedef")))
-		{
-			if ( peektok.Type == Tok_Statement_End )
-			{
-				Token stmt_end = currtok;
-				eat( Tok_Statement_End );
-				// <Macro>;
-
-				full_macro.Text.Len = ( (sptr)prevtok_noskip.Text.Ptr + prevtok_noskip.Text.Len ) - (sptr)full_macro.Text.Ptr;
-
-				// TODO(Ed): Reveiw the context for this? (ESPECIALLY THIS)
-				if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
-				{
-					eat( Tok_Comment );
-					// <Macro>; <InlineCmt>
-
-					full_macro.Text.Len = ( (sptr)prevtok_noskip.Text.Ptr + prevtok_noskip.Text.Len ) - (sptr)full_macro.Text.Ptr;
-				}
-			}
-		}
 		else if (
 				str_contains(calling_proc, txt("parse_global_nspace"))
 			||	str_contains(calling_proc, txt("parse_class_struct_body"))
+			||	str_contains(calling_proc, txt("parse_union"))
+			||	str_contains(calling_proc, txt("parse_macro_as_definiton"))
 		)
 		{
 			if (left && peektok.Type == Tok_Statement_End)
@@ -3364,6 +3346,11 @@ Code parse_simple_preprocess( TokType which )
 	}
 
 Leave_Scope_Early:
+	// What follows a statement on its line must not run into it.
+	if ( macro && macro->Type == MT_Statement && left && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_Statement_End
+		&& char_is_space( full_macro.Text.Ptr[ full_macro.Text.Len ] ) )
+		full_macro.Text.Len += full_macro.Text.Ptr[ full_macro.Text.Len ] == '\r' ? 2 : 1;
+
 	Code result = untyped_str( full_macro.Text );
 	_ctx->parser.Scope->Name = full_macro.Text;
 
-- 
2.43.0


From 23af25c720bf2a7a40e3c0f8407a0df043c99cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 39/53] fix: a macro as the last parameter was refused, as were
 macros allowed as identifiers for a parameter's name

---
 base/components/lexer.cpp  | 3 +++
 base/components/parser.cpp | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index e47fd4b..211c0f9 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -659,6 +659,9 @@ void lex_found_token( LexContext* ctx )
 		if ( has_args ) {
 			ctx->token.Flags |= TF_Macro_Functional;
 		}
+		if ( ! has_args && bitfield_is_set(MacroFlags, macro->Flags, MF_Allow_As_Identifier) ) {
+			ctx->token.Flags |= TF_Identifier;
+		}
 		if ( bitfield_is_set(MacroFlags, macro->Flags, MF_Allow_As_Attribute) ) {
 			ctx->token.Flags |= TF_Attribute;
 		}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a8d5bf4..ac293ac 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2967,7 +2967,8 @@ CodeParams parse_params( bool use_template_capture )
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
-	if ( currtok.Type != Tok_Comma )
+	// The macro may be the last of the parameters
+	if ( currtok.Type != Tok_Comma && ( macro == nullptr || CheckEndParams() ) )
 	{
 		type = parser_parse_type( use_template_capture, nullptr );
 		if ( cast(Code, type) == Code_Invalid )
@@ -3087,7 +3088,7 @@ CodeParams parse_params( bool use_template_capture )
 			macro = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
 			// ( <Macro> <ValueType> <Name> = <Expression>, <Macro>
 		}
-		if ( currtok.Type != Tok_Comma )
+		if ( currtok.Type != Tok_Comma && ( macro == nullptr || CheckEndParams() ) )
 		{
 			type = cast(Code, parser_parse_type( use_template_capture, nullptr ));
 			if ( type == Code_Invalid )
-- 
2.43.0


From 17251d03e6fe2084dec38a4cf6286002d0dba610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 40/53] fix: a typedef of a macro'd typename with qualifiers,
 an array or a function was refused

---
 base/components/parser.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index ac293ac..45c632f 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5435,7 +5435,29 @@ CodeTypedef parser_parse_typedef()
 	if ( false )
 #else
 	b32 valid_macro = false;
-	valid_macro |= left && currtok.Type == Tok_Preprocess_Macro_Typename;
+	if ( left && currtok.Type == Tok_Preprocess_Macro_Typename )
+	{
+		// The macro may also be no more than the type of an ordinary typedef
+		TokArray tokens = _ctx->parser.Tokens;
+		lex_current( & tokens, lex_skip_formatting );
+
+		s32 idx   = lex_idx_ahead( tokens, tokens.Idx, 1 );
+		s32 level = 0;
+		if ( lex_at( tokens, idx )->Type == Tok_Paren_Open && bitfield_is_set(u32, currtok.Flags, TF_Macro_Functional) )
+		{
+			for ( ; idx < array_num(tokens.Arr); idx ++ )
+			{
+				if ( tokens.Arr[idx].Type == Tok_Paren_Open )
+					level ++;
+				if ( tokens.Arr[idx].Type == Tok_Paren_Close && -- level == 0 )
+					break;
+			}
+			idx = lex_idx_ahead( tokens, idx, 1 );
+		}
+
+		TokType following = lex_at( tokens, idx )->Type;
+		valid_macro |= following == Tok_Statement_End || following == Tok_BraceCurly_Open;
+	}
 	valid_macro |= left && currtok.Type == Tok_Preprocess_Macro_Stmt;
 	// if (currtok.Type == Tok_Preprocess_Macro_Stmt)
 	// {
-- 
2.43.0


From 119488b9f06cb5f7610ad86942237c36270207c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 41/53] fix: code_is_equal ignored suffix specifiers and the
 macros of parameters

---
 base/components/ast.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 9c80006..9f11c6e 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -845,6 +845,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 			check_member_ast( Body );
 
 			return true;
@@ -858,6 +859,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -981,6 +983,22 @@ bool code_is_equal( Code self, Code other )
 							return false;
 						}
 
+						if ( ( curr->Macro == nullptr ? curr_other->Macro != nullptr : ! code_is_equal(curr->Macro, curr_other->Macro) )
+						||   ( curr->PostNameMacro == nullptr ? curr_other->PostNameMacro != nullptr : ! code_is_equal(curr->PostNameMacro, curr_other->PostNameMacro) ) )
+						{
+							log_fmt( "\nAST::is_equal: Failed for parameter macro check\n"
+									"AST  : %S\n"
+									"Other: %S\n"
+									"For     ast member: %S\n"
+									"other's ast member: %S\n"
+								, code_debug_str(self)
+								, code_debug_str(other)
+								, code_debug_str(curr)
+								, code_debug_str(curr_other)
+							);
+							return false;
+						}
+
 						if ( curr->Value == nullptr ? curr_other->Value != nullptr : ! code_is_equal(curr->Value, curr_other->Value) )
 						{
 							log_fmt( "\nAST::is_equal: Failed for parameter value check\n"
@@ -1005,7 +1023,9 @@ bool code_is_equal( Code self, Code other )
 			}
 
 			check_member_str( Name );
+			check_member_ast( Macro );
 			check_member_ast( ValueType );
+			check_member_ast( PostNameMacro );
 			check_member_ast( Value );
 			check_member_ast( ArrExpr );
 
-- 
2.43.0


From 8acad3879790dc39d72b4fdf6261f26f07acd134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:34 +0000
Subject: [PATCH 42/53] fix: arguments of an attribute or an underlying type
 macro are no parameter list

---
 base/components/parser.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 45c632f..f846773 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1205,6 +1205,13 @@ CodeComment parse_comment()
 	return result;
 }
 
+// The enum_underlying macro stands for an enum's underlying type.
+internal inline
+b32 parse_is_underlying_macro( Token tok )
+{
+	return tok.Type == Tok_Preprocess_Macro_Expr && str_contains( tok.Text, enum_underlying_macro.Name );
+}
+
 internal
 Code parse_complicated_definition( TokType which )
 {
@@ -1220,6 +1227,8 @@ Code parse_complicated_definition( TokType which )
 	s32 level       = 0;
 	b32 had_def     = false;
 	b32 had_paren   = false;
+	b32 is_params   = false;
+	s32 paren_level = 0;
 	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
 		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Open )
@@ -1230,8 +1239,17 @@ Code parse_complicated_definition( TokType which )
 			had_def = level == 0;
 		}
 
-		// A parameter list, unlike an attribute's arguments, ends the declarator.
-		if ( level == 0 && tokens.Arr[ idx ].Type == Tok_Paren_Close && idx + 1 < array_num(tokens.Arr)
+		if ( level == 0 && tokens.Arr[ idx ].Type == Tok_Paren_Open && paren_level ++ == 0 )
+		{
+			Token owner = * lex_at( tokens, lex_idx_behind( tokens, idx, 1 ));
+			is_params   = ! tok_is_attribute( owner ) && ! parse_is_underlying_macro( owner );
+		}
+
+		if ( level == 0 && tokens.Arr[ idx ].Type == Tok_Paren_Close )
+			paren_level --;
+
+		// A parameter list, unlike the arguments of an attribute or of the underlying type's macro, ends the declarator.
+		if ( level == 0 && is_params && tokens.Arr[ idx ].Type == Tok_Paren_Close && idx + 1 < array_num(tokens.Arr)
 		&&	( lex_at( tokens, lex_idx_ahead( tokens, idx, 1 ))->Type == Tok_BraceCurly_Open || tok_is_specifier(* lex_at( tokens, lex_idx_ahead( tokens, idx, 1 ))) ) )
 			had_paren = true;
 
@@ -1247,10 +1265,12 @@ Code parse_complicated_definition( TokType which )
 		if ( lex_at( tokens, name_idx )->Type == Tok_Decl_Class )
 			name_idx = lex_idx_ahead( tokens, name_idx, 1 );
 
-		if ( lex_at( tokens, name_idx )->Type == Tok_Identifier && lex_at( tokens, lex_idx_ahead( tokens, name_idx, 1 ))->Type == Tok_Assign_Classifer )
+		Token after_name = * lex_at( tokens, lex_idx_ahead( tokens, name_idx, 1 ));
+		if ( lex_at( tokens, name_idx )->Type == Tok_Identifier && ( after_name.Type == Tok_Assign_Classifer || parse_is_underlying_macro( after_name ) ) )
 		{
 			// Its a forward declaration of an enum
 			// <enum> <class> <type_identifier> : <UnderlyingType>;
+			// <enum> <class> <type_identifier> <UnderlyingTypeMacro>;
 			Code result = cast(Code, parser_parse_enum( ! parser_inplace_def));
 			parser_pop(& _ctx->parser);
 			return result;
-- 
2.43.0


From 7989958818b5974c9708b226430b3b20325ddc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:34 +0000
Subject: [PATCH 43/53] fix: variables keep the type that is defined in their
 declaration

---
 base/components/code_serialization.cpp | 25 ++++++++++++++++---------
 base/components/parser.cpp             |  9 +++++++++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 8d29e11..21c7017 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1327,6 +1327,13 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		return;
 	}
 
+	// The value's type may be defined in-place: <which> <Name> { ... } <Name>;
+	b32        is_inplace = self->ValueType && self->ValueType->Type != CT_Typename;
+	StrBuilder type_str   = is_inplace ? code_to_strbuilder( cast(Code, self->ValueType)) : typename_to_strbuilder(self->ValueType);
+	Code       arr_expr   = { nullptr };
+	if ( self->ValueType && ! is_inplace )
+		arr_expr = self->ValueType->ArrExpr;
+
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
@@ -1338,13 +1345,13 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Specs )
 			strbuilder_append_fmt( result, "%SB", specifiers_to_strbuilder(self->Specs) );
 
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+		strbuilder_append_fmt( result, "%SB %S", type_str, self->Name );
 
-		if ( self->ValueType && self->ValueType->ArrExpr )
+		if ( arr_expr )
 		{
-			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(arr_expr) );
 
-			Code next_arr_expr = self->ValueType->ArrExpr->Next;
+			Code next_arr_expr = arr_expr->Next;
 			while ( next_arr_expr )
 			{
 				strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
@@ -1375,13 +1382,13 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	}
 
 	if ( self->BitfieldSize )
-		strbuilder_append_fmt( result, "%SB %S : %SB", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->BitfieldSize) );
+		strbuilder_append_fmt( result, "%SB %S : %SB", type_str, self->Name, code_to_strbuilder(self->BitfieldSize) );
 
-	else if ( self->ValueType && self->ValueType->ArrExpr )
+	else if ( arr_expr )
 	{
-		strbuilder_append_fmt( result, "%SB %S[ %SB ]", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->ValueType->ArrExpr) );
+		strbuilder_append_fmt( result, "%SB %S[ %SB ]", type_str, self->Name, code_to_strbuilder(arr_expr) );
 
-		Code next_arr_expr = self->ValueType->ArrExpr->Next;
+		Code next_arr_expr = arr_expr->Next;
 		while ( next_arr_expr )
 		{
 			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
@@ -1390,7 +1397,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	}
 
 	else
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+		strbuilder_append_fmt( result, "%SB %S", type_str, self->Name );
 
 	if ( self->Value )
 	{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f846773..a5c143a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1338,12 +1338,21 @@ Code parse_complicated_definition( TokType which )
 			is_inplace  = true;
 
 			CodeTypename type = cast(CodeTypename, parse_forward_or_definition(which, is_inplace));
+			if ( cast(Code, type) == Code_Invalid )
+			{
+				log_failure( "Failed to parse the in-place definition of a variable's type\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 
 			// Should be a name right after the type.
 			Token name = parse_identifier(nullptr);
 			_ctx->parser.Scope->Name = name.Text;
 
 			CodeVar result = parse_variable_after_name(ModuleFlag_None, NullCode, NullCode, type, name.Text);
+			if ( cast(Code, result) != Code_Invalid )
+				type->Parent = cast(Code, result);
+
 			parser_pop(& _ctx->parser);
 			return (Code) result;
 		}
-- 
2.43.0


From b612ce11367edd309787d1e70cdca690013b9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:34 +0000
Subject: [PATCH 44/53] fix: struct, class, union and enum in front of the type
 of a variable or function

---
 base/components/parser.cpp | 82 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 79 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a5c143a..359b718 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1212,6 +1212,74 @@ b32 parse_is_underlying_macro( Token tok )
 	return tok.Type == Tok_Preprocess_Macro_Expr && str_contains( tok.Text, enum_underlying_macro.Name );
 }
 
+// <which> <Name> goes on with a declarator, it is the type of a variable or what a function returns.
+internal
+b32 parse_is_elaborated_type()
+{
+	TokArray tokens = _ctx->parser.Tokens;
+	lex_current( & tokens, lex_skip_formatting );
+
+	s32 idx = lex_idx_ahead( tokens, tokens.Idx, 1 );
+	if ( lex_at( tokens, tokens.Idx )->Type == Tok_Decl_Enum && lex_at( tokens, idx )->Type == Tok_Decl_Class )
+		return false;
+
+	for (;; idx = lex_idx_ahead( tokens, idx, 1 ) )
+	{
+		if ( lex_at( tokens, idx )->Type != Tok_Identifier )
+			return false;
+
+		idx       = lex_idx_ahead( tokens, idx, 1 );
+		Token tok = * lex_at( tokens, idx );
+		if ( tok.Type == Tok_Operator && tok.Text.Len == 1 && tok.Text.Ptr[0] == '<' )
+		{
+			// The name's template arguments
+			s32 level       = 0;
+			s32 paren_level = 0;
+			for ( ; idx < array_num(tokens.Arr); idx ++ )
+			{
+				tok = tokens.Arr[ idx ];
+				if ( tok.Type == Tok_Paren_Open )
+					paren_level ++;
+				else if ( tok.Type == Tok_Paren_Close )
+					paren_level --;
+				else if ( tok.Type == Tok_Statement_End )
+					return false;
+				else if ( paren_level == 0 && tok.Type == Tok_Operator )
+				{
+					if ( str_are_equal( tok.Text, txt("<")) )
+						level ++;
+					else if ( str_are_equal( tok.Text, txt(">")) )
+						level --;
+					else if ( str_are_equal( tok.Text, txt(">>")) )
+						level -= 2;
+				}
+				if ( level <= 0 )
+					break;
+			}
+			idx = lex_idx_ahead( tokens, idx, 1 );
+			tok = * lex_at( tokens, idx );
+		}
+		// <which> <Name>
+
+		if ( tok.Type == Tok_Access_StaticSymbol )
+			continue;
+		// <which> <Name> ::
+
+		switch ( tok.Type )
+		{
+			case Tok_Identifier:
+			case Tok_Star:
+			case Tok_Ampersand:
+			case Tok_Ampersand_DBL:
+			case Tok_Decl_Operator:
+				return true;
+
+			default:
+				return ( tok_is_specifier( tok ) && tok.Type != Tok_Spec_Final ) || bitfield_is_set( u32, tok.Flags, TF_Identifier ) || tok_is_attribute( tok );
+		}
+	}
+}
+
 internal
 Code parse_complicated_definition( TokType which )
 {
@@ -1287,6 +1355,14 @@ Code parse_complicated_definition( TokType which )
 		return result;
 	}
 
+	if ( parse_is_elaborated_type() )
+	{
+		Code result = parse_operator_function_or_variable(false, NullCode, NullCode);
+		// <which> <type_identifier> <*, &, const> <operator <Op>, or Name> ...;
+		parser_pop(& _ctx->parser);
+		return result;
+	}
+
 	if ( lex_idx_behind( tokens, idx, 2 ) == tokens.Idx )
 	{
 		// It's a forward declaration only
@@ -4795,21 +4871,21 @@ CodeTemplate parser_parse_template()
 
 	while ( left )
 	{
-		if ( check( Tok_Decl_Class ) )
+		if ( check( Tok_Decl_Class ) && ! parse_is_elaborated_type() )
 		{
 			definition = cast(Code, parser_parse_class( parser_not_inplace_def));
 			// <export> template< <Parameters> > class ...
 			break;
 		}
 
-		if ( check( Tok_Decl_Struct ) )
+		if ( check( Tok_Decl_Struct ) && ! parse_is_elaborated_type() )
 		{
 			definition = cast(Code, parser_parse_struct( parser_not_inplace_def));
 			// <export> template< <Parameters> > struct ...
 			break;
 		}
 
-		if ( check( Tok_Decl_Union ) )
+		if ( check( Tok_Decl_Union ) && ! parse_is_elaborated_type() )
 		{
 			definition = cast(Code, parser_parse_union( parser_not_inplace_def));
 			// <export> template< <Parameters> > union ...
-- 
2.43.0


From 279110585236c7ce9f31857c6852df2ee770da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:34 +0000
Subject: [PATCH 45/53] fix: a directive in an enum body starts its own line

---
 base/components/inlines.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 3624674..8deffd0 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -36,6 +36,13 @@ void body_to_strbuilder_ref( CodeBody body, StrBuilder* result )
 	s32  left = body->NumEntries;
 	while ( left -- )
 	{
+		// An enumerator does not end its line, a directive has to start one.
+		b32 is_directive = curr->Type == CT_Untyped
+			? curr->Content.Len > 0 && curr->Content.Ptr[0] == '#'
+			: curr->Type >= CT_Preprocess_Define && curr->Type <= CT_Preprocess_Pragma;
+		if ( body->Type == CT_Enum_Body && is_directive && strbuilder_length(* result) > 0 && * strbuilder_back(* result) != '\n' )
+			strbuilder_append_str( result, txt("\n") );
+
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
 		curr = curr->Next;
-- 
2.43.0


From a07008a6c47a4eba42b34e63ce59a43879b567a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:34 +0000
Subject: [PATCH 46/53] fix: define the members CodeClass declares

---
 base/components/code_types.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/code_types.hpp b/base/components/code_types.hpp
index bbf885b..13b652e 100644
--- a/base/components/code_types.hpp
+++ b/base/components/code_types.hpp
@@ -187,7 +187,7 @@ struct CodeClass
 {
 #if ! GEN_C_LIKE_CPP
 	Using_Code( CodeClass );
-	forceinline void       add_interface( CodeType interface );
+	forceinline void       add_interface( CodeTypename interface );
 	forceinline StrBuilder to_strbuilder();
 	forceinline void       to_strbuilder_def( StrBuilder& result );
 	forceinline void       to_strbuilder_fwd( StrBuilder& result );
@@ -1062,6 +1062,11 @@ forceinline StrBuilder to_strbuilder    ( CodeClass self )
 forceinline void       to_strbuilder_def( CodeClass self, StrBuilder& result )     { return class_to_strbuilder_def(self, & result); }
 forceinline void       to_strbuilder_fwd( CodeClass self, StrBuilder& result )     { return class_to_strbuilder_fwd(self, & result); }
 
+forceinline void       CodeClass::add_interface    ( CodeTypename interface ) { return class_add_interface(* this, interface); }
+forceinline StrBuilder CodeClass::to_strbuilder    ()                         { return class_to_strbuilder(* this); }
+forceinline void       CodeClass::to_strbuilder_def( StrBuilder& result )     { return class_to_strbuilder_def(* this, & result); }
+forceinline void       CodeClass::to_strbuilder_fwd( StrBuilder& result )     { return class_to_strbuilder_fwd(* this, & result); }
+
 forceinline void             append       (CodeDefineParams appendee, CodeDefineParams other ) {        params_append(cast(CodeParams, appendee), cast(CodeParams, other)); }
 forceinline CodeDefineParams get          (CodeDefineParams params, s32 idx)                   { return (CodeDefineParams) (Code) params_get(cast(CodeParams, params), idx); }
 forceinline bool             has_entries  (CodeDefineParams params )                           { return params_has_entries(cast(CodeParams, params)); }
-- 
2.43.0


From c0536411052689afd8342abeb26f542cd223a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:34 +0000
Subject: [PATCH 47/53] fix: code_debug_str names a code's parent, not the code
 again

---
 base/components/ast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 9f11c6e..a131d9d 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -11,7 +11,7 @@ Str code_debug_str(Code self)
 	StrBuilder* result       = & result_stack;
 
 	if ( self->Parent )
-		strbuilder_append_fmt( result, "\n\tParent       : %S %S", code_type_str(self->Parent), self->Name.Len ? self->Name : txt("Null") );
+		strbuilder_append_fmt( result, "\n\tParent       : %S %S", code_type_str(self->Parent), self->Parent->Name.Len ? self->Parent->Name : txt("Null") );
 	else
 		strbuilder_append_fmt( result, "\n\tParent       : %S", txt("Null") );
 
-- 
2.43.0


From 8a60f40b2ce57c9b53e9ae6e253cc822fd5f078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:36 +0000
Subject: [PATCH 48/53] fix: token_fmt took names that share a hash for one
 another

---
 base/components/interface.untyped.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 15d0a59..6fecf1a 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -12,6 +12,8 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 		_ctx->token_fmt_map = hashtable_init(Str, _ctx->Allocator_DyanmicContainers );
 	}
 	// Populate token pairs
+	va_list tokens;
+	va_copy( tokens, va );
 	{
 		s32 left = num_tokens - 1;
 
@@ -59,6 +61,30 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			u32      key   = crc32( token, tok_len );
 			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
 
+			// The key is just a hash, tell apart names that share it.
+			Str match;
+			if ( value )
+			{
+				value = nullptr;
+
+				va_list names;
+				va_copy( names, tokens );
+
+				s32 left = num_tokens - 1;
+				while ( left-- )
+				{
+					char const* name       = va_arg( names, char const* );
+					Str         name_value = va_arg( names, Str );
+
+					if ( c_str_len(name) == tok_len && c_str_compare_len(name, token, tok_len) == 0 )
+					{
+						match = name_value;
+						value = & match;
+					}
+				}
+				va_end( names );
+			}
+
 			if ( value )
 			{
 				ssize          left = value->Len;
@@ -87,6 +113,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 		}
 	}
 	hashtable_clear(_ctx->token_fmt_map);
+	va_end( tokens );
 	ssize result = buf_size - remaining;
 	return result;
 }
-- 
2.43.0


From 9cf11fabadb026ba1ccb44c1f30958f5c6a08067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:17 +0000
Subject: [PATCH 49/53] fix: searching text for a substring no longer stops at
 a NUL character

---
 base/dependencies/strings.hpp | 51 ++++++-----------------------------
 1 file changed, 8 insertions(+), 43 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 9e9722d..a59e660 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -86,7 +86,8 @@ bool str_contains(Str str, Str substring)
 	ssize sub_len  = substring.Len;
 	for (ssize idx = 0; idx <= main_len - sub_len; ++idx)
 	{
-		if (c_str_compare_len(str.Ptr + idx, substring.Ptr, sub_len) == 0)
+		Str slice = { str.Ptr + idx, sub_len };
+		if (str_are_equal(slice, substring))
 			return true;
 	}
 	return false;
@@ -97,8 +98,8 @@ b32 str_starts_with(Str str, Str substring) {
 	if (substring.Len > str.Len)
 		return false;
 
-	b32 result = c_str_compare_len(str.Ptr, substring.Ptr, substring.Len) == 0;
-		return result;
+	Str prefix = { str.Ptr, substring.Len };
+	return str_are_equal(prefix, substring);
 }
 
 inline
@@ -462,41 +463,13 @@ char* strbuilder_back(StrBuilder str) {
 inline
 bool strbuilder_contains_str(StrBuilder const str, Str substring)
 {
-	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
-
-	if (substring.Len > header->Length)
-		return false;
-
-	ssize main_len = header->Length;
-	ssize sub_len  = substring.Len;
-
-	for (ssize idx = 0; idx <= main_len - sub_len; ++idx)
-	{
-		if (c_str_compare_len(str + idx, substring.Ptr, sub_len) == 0)
-			return true;
-	}
-
-	return false;
+	return str_contains(strbuilder_to_str(str), substring);
 }
 
 inline
 bool strbuilder_contains_string(StrBuilder const str, StrBuilder const substring)
 {
-	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
-
-	if (strbuilder_length(substring) > header->Length)
-		return false;
-
-	ssize main_len = header->Length;
-	ssize sub_len  = strbuilder_length(substring);
-
-	for (ssize idx = 0; idx <= main_len - sub_len; ++idx)
-	{
-		if (c_str_compare_len(str + idx, substring, sub_len) == 0)
-			return true;
-	}
-
-	return false;
+	return str_contains(strbuilder_to_str(str), strbuilder_to_str(substring));
 }
 
 forceinline
@@ -540,20 +513,12 @@ ssize strbuilder_length(StrBuilder const str)
 
 forceinline
 b32 strbuilder_starts_with_str(StrBuilder const str, Str substring) {
-	if (substring.Len > strbuilder_length(str))
-	return false;
-
-	b32 result = c_str_compare_len(str, substring.Ptr, substring.Len) == 0;
-	return result;
+	return str_starts_with(strbuilder_to_str(str), substring);
 }
 
 forceinline
 b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
-	if (strbuilder_length(substring) > strbuilder_length(str))
-		return false;
-
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
-	return result;
+	return str_starts_with(strbuilder_to_str(str), strbuilder_to_str(substring));
 }
 
 inline
-- 
2.43.0


From 38d92e937b70dd59cf3622088a397dc2632b5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:17 +0000
Subject: [PATCH 50/53] fix: %f does not write past the end of a buffer that is
 too small

---
 base/dependencies/printing.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 07f7e57..f041784 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -145,6 +145,17 @@ internal ssize _print_u64( char* text, ssize max_len, _format_info* info, u64 va
 	return _print_string( text, max_len, info, num );
 }
 
+// Writes the digits there is room for (the last character is kept for the terminator), returns how many there are.
+internal ssize _print_f64_digits( char* text, ssize* remaining, u64 value )
+{
+	char  num[ 130 ];
+	u64_to_str( value, num, 10 );
+	ssize len = c_str_len( num );
+	for ( ssize idx = 0; idx < len && * remaining > 1; ++ idx, -- * remaining )
+		text[ idx ] = num[ idx ];
+	return len;
+}
+
 internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is_hexadecimal, f64 arg )
 {
 	// TODO: Handle exponent notation
@@ -169,13 +180,8 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 		}
 
 		value  = scast( u64, arg);
-		len    = _print_u64( text, remaining, NULL, value );
+		len    = _print_f64_digits( text, & remaining, value );
 		text  += len;
-
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
 		arg -= value;
 
 		if ( info->precision < 0 )
@@ -190,12 +196,8 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 			while ( info->precision-- > 0 )
 			{
 				value  = scast( u64, arg * mult );
-				len    = _print_u64( text, remaining, NULL, value );
+				len    = _print_f64_digits( text, & remaining, value );
 				text  += len;
-				if ( len >= remaining )
-					remaining = min( remaining, 1 );
-				else
-					remaining -= len;
 				arg  -= scast( f64, value ) / mult;
 				mult *= 10;
 			}
@@ -218,7 +220,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	if ( width > 0 )
 	{
 		char  fill = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-		char* end  = text + remaining - 1;
+		char* end  = text_begin + max_len - 1;
 		len        = ( text - text_begin );
 
 		for ( len = ( text - text_begin ); len--; )
-- 
2.43.0


From 7509f9a23d9c3a9e15410377fc88e1444f7bf003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:17 +0000
Subject: [PATCH 51/53] fix: define the StrBuilder overloads that were only
 declared

---
 base/dependencies/strings.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index a59e660..6b42884 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -297,16 +297,16 @@ forceinline char* next (StrBuilder str, char* iter) { return ((char*) iter + 1);
 #endif
 
 #if GEN_COMPILER_CPP && ! GEN_C_LIKE_CPP
-forceinline bool  make_space_for(StrBuilder& str, char const* to_append, ssize add_len);
-forceinline bool  append(StrBuilder& str, char c);
-forceinline bool  append(StrBuilder& str, char const* c_str_to_append);
-forceinline bool  append(StrBuilder& str, char const* c_str_to_append, ssize length);
-forceinline bool  append(StrBuilder& str, Str c_str_to_append);
-forceinline bool  append(StrBuilder& str, const StrBuilder other);
-forceinline bool  append_fmt(StrBuilder& str, char const* fmt, ...);
-forceinline char& back(StrBuilder& str);
-forceinline void  clear(StrBuilder& str);
-forceinline void  free(StrBuilder& str);
+forceinline bool  make_space_for(StrBuilder& str, char const* to_append, ssize add_len)       { return strbuilder_make_space_for(& str, to_append, add_len); }
+forceinline bool  append(StrBuilder& str, char c)                                             { return strbuilder_append_char(& str, c); }
+forceinline bool  append(StrBuilder& str, char const* c_str_to_append)                        { return strbuilder_append_c_str(& str, c_str_to_append); }
+forceinline bool  append(StrBuilder& str, char const* c_str_to_append, ssize length)          { return strbuilder_append_c_str_len(& str, c_str_to_append, length); }
+forceinline bool  append(StrBuilder& str, Str c_str_to_append)                                { return strbuilder_append_str(& str, c_str_to_append); }
+forceinline bool  append(StrBuilder& str, const StrBuilder other)                             { return strbuilder_append_string(& str, other); }
+template< class... Types > forceinline bool append_fmt(StrBuilder& str, char const* fmt, Types... args) { return strbuilder_append_fmt(& str, fmt, args...); }
+forceinline char& back(StrBuilder& str)                                                       { return * strbuilder_back(str); }
+forceinline void  clear(StrBuilder& str)                                                      { return strbuilder_clear(str); }
+forceinline void  free(StrBuilder& str)                                                       { return strbuilder_free(& str); }
 #endif
 
 forceinline
-- 
2.43.0


From 79caf06195d0eb9b37fb68f06da6a8030de5979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:17 +0000
Subject: [PATCH 52/53] fix: FixedArena's methods and overloads compile and
 return what they should

---
 base/dependencies/memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index eaad19d..8e877b2 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -321,8 +321,8 @@ template<s32 Size> ssize            fixed_arena_size_remaining(FixedArena<Size>*
 template<s32 Size> void             fixed_arena_free(FixedArena<Size>* fixed_arena);
 
 #if GEN_COMPILER_CPP && ! GEN_C_LIKE_CPP
-template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return allocator_info(& fixed_arena); }
-template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return size_remaining( & fixed_arena, alignment); }
+template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return fixed_arena_allocator_info(& fixed_arena); }
+template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return fixed_arena_size_remaining( & fixed_arena, alignment); }
 #endif
 
 // Just a wrapper around using an arena with memory associated with its scope instead of from an allocator.
@@ -337,8 +337,8 @@ struct FixedArena
 #pragma region Member Mapping
 	forceinline operator AllocatorInfo() { return fixed_arena_allocator_info(this); }
 
-	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(result); return result; }
-	forceinline ssize             size_remaining(ssize alignment) { fixed_arena_size_remaining(this, alignment); }
+	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(& result); return result; }
+	forceinline ssize             size_remaining(ssize alignment) { return fixed_arena_size_remaining(this, alignment); }
 #pragma endregion Member Mapping
 #endif
 };
-- 
2.43.0


From 0058dba101b78b885fb331cd9a6e235599f07c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:17 +0000
Subject: [PATCH 53/53] fix: white space and line continuations next to the
 parentheses of a macro's parameter list

---
 base/components/lexer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 211c0f9..4edc576 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -214,6 +214,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 
 		Token last_parameter = {};
 		// We need to tokenize the define's arguments now:
+		skip_whitespace();
 		while( ctx->left && * ctx->scanner != ')')
 		{
 			skip_whitespace();
@@ -262,6 +263,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				array_append(_ctx->Lexer_Tokens, parameter);
 				skip_whitespace();
 				last_parameter = parameter;
+
+				while ( (* ctx->scanner) == '\\' ) {
+					move_forward();
+					skip_whitespace();
+				}
 			}
 			else {
 				log_failure("lex_preprocessor_define(%d, %d): Expected a '_' or alpha character for a parameter name for %S\n"
-- 
2.43.0

