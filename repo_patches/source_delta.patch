From 24af098fe1c3f9383463537f36cb91fd5f8ce39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 001/117] fix: opPhiDynamic dropped its first variable and left
 a half-built instruction on error

---
 lib/source/Instruction.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5f888f3..d0e9c66 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -999,17 +999,19 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPhiDynamic(const List<Instruct
 
 	if (type == nullptr) return error();
 
-	makeOp(spv::Op::OpPhi, type, InvalidId);
-
-	for (auto it = _variables.begin().next(); it != _variables.end(); ++it)
+	for (Instruction* var : _variables)
 	{
-		Instruction* var = *it;
 		if (var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
 		{
 			getModule()->logError("Invalid variable (type or null) passed to opPhiDynamic");
 			return error();
 		}
+	}
 
+	makeOp(spv::Op::OpPhi, type, InvalidId);
+
+	for (Instruction* var : _variables)
+	{
 		addOperand(var);
 		addOperand(var->getBasicBlock());
 	}
-- 
2.43.0


From 47a3a6480150c55a223f247d80821199448ece99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 002/117] fix: opSource put the source text into the File
 operand when no file was given

---
 lib/source/Instruction.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index d0e9c66..3116ed5 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -701,17 +701,22 @@ void spvgentwo::Instruction::opSourceContinued(const char* _pSourceText)
 
 void spvgentwo::Instruction::opSource(spv::SourceLanguage _lang, unsigned int _version, Instruction* _pFileString, const char* _pSourceText)
 {
+	if (_pFileString != nullptr && _pFileString->getOperation() != spv::Op::OpString)
+	{
+		getModule()->logError("Operand of _pFileString of opSource target must be OpString instruction");
+		return;
+	}
+
+	// the optional File operand precedes the optional Source operand, so source text without a file needs an (empty) file string declared before this instruction
+	if (_pFileString == nullptr && _pSourceText != nullptr)
+	{
+		_pFileString = getModule()->getSourceStrings().emplace_front(getModule(), spv::Op::OpNop).opString("");
+	}
+
 	makeOp(spv::Op::OpSource, literal_t{ _lang }, _version);
 	if (_pFileString != nullptr)
 	{
-		if (_pFileString->getOperation() == spv::Op::OpString)
-		{
-			addOperand(_pFileString);
-		}
-		else
-		{
-			getModule()->logError("Operand of _pFileString of opSource target must be OpString instruction");
-		}
+		addOperand(_pFileString);
 	}
 	if (_pSourceText != nullptr)
 	{
-- 
2.43.0


From fb3003ebfd57c10d5e97175882ee805dcfa1a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 003/117] fix: isTerminatorOp did not know the block
 terminators added by later extensions

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index f890847..20e88be 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -82,6 +82,10 @@ namespace spvgentwo
 		case spv::Op::OpReturnValue:
 		case spv::Op::OpKill:
 		case spv::Op::OpUnreachable:
+		case spv::Op::OpTerminateInvocation:
+		case spv::Op::OpIgnoreIntersectionKHR:
+		case spv::Op::OpTerminateRayKHR:
+		case spv::Op::OpEmitMeshTasksEXT:
 			return true;
 		default:
 			return false;
-- 
2.43.0


From 288db9b33adecd766fdaf5a6937fa5444b0a715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 004/117] fix: getExecutionModeOp chose OpExecutionMode for
 AMDX modes that take <id> operands

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 20e88be..961b8fa 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -65,6 +65,10 @@ namespace spvgentwo
 		case spv::ExecutionMode::SubgroupsPerWorkgroupId:
 		case spv::ExecutionMode::LocalSizeId:
 		case spv::ExecutionMode::LocalSizeHintId:
+		case spv::ExecutionMode::MaxNodeRecursionAMDX:
+		case spv::ExecutionMode::StaticNumWorkgroupsAMDX:
+		case spv::ExecutionMode::ShaderIndexAMDX:
+		case spv::ExecutionMode::MaxNumWorkgroupsAMDX:
 			return spv::Op::OpExecutionModeId;
 		default:
 			return spv::Op::OpExecutionMode;
-- 
2.43.0


From d46c4c508491926ea53038164c23e619dff95075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 005/117] fix: opBitCount refused every operand, getTypeFromOp
 did not know the opcode

---
 lib/include/spvgentwo/SpvDefines.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 961b8fa..9a75c30 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -197,6 +197,7 @@ namespace spvgentwo
 		case spv::Op::OpSatConvertSToU:
 		case spv::Op::OpBitFieldInsert:
 		case spv::Op::OpBitReverse:
+		case spv::Op::OpBitCount:
 
 			_sign = Sign::Any;
 			return spv::Op::OpTypeInt;
-- 
2.43.0


From 854460ba23eab4d552dab9ff2dab8a2a4868231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 006/117] fix: opVectorTimesMatrix gave its result the type of
 the vector operand instead of the matrix row type

---
 lib/source/Instruction.cpp               | 2 +-
 lib/source/TypeInferenceAndValiation.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 3116ed5..e860b49 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1376,7 +1376,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorTimesMatrix(Instruction*
 
 	if (pVecType->isVectorOfFloat() && pMatType->isMatrix() && pMatType->hasSameBase(*pVecType) && pMatType->front().getVectorComponentCount() == pVecType->getVectorComponentCount())
 	{
-		return makeOp(spv::Op::OpVectorTimesMatrix, _pVector->getResultTypeInstr(), InvalidId, _pVector, _pMatrix);
+		return makeOp(spv::Op::OpVectorTimesMatrix, InvalidInstr, InvalidId, _pVector, _pMatrix);
 	}
 
 	getModule()->logError("Operand of OpVectorTimesMatrix is not a vector or matrix of float type");
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d40293f..ed35618 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -219,14 +219,14 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		break;
 	case spv::Op::OpVectorTimesMatrix:
 	{
-		if (type1 == nullptr) return module->getErrorInstr();
+		if (type2 == nullptr) return module->getErrorInstr();
 
 		// Matrix must be a matrix with the same Component Type as the Component Type in Result Type.
 		// Its number of columns must equal the number of components in Result Type.
 		// => return matrix row type:
-		if (type1->isMatrix())
+		if (type2->isMatrix())
 		{
-			return module->addType(type1->front().wrapVector(type1->getMatrixColumnCount()));
+			return module->addType(type2->getBaseType().wrapVector(type2->getMatrixColumnCount()));
 		}
 		break;
 	}
-- 
2.43.0


From b39ad12c6080c024701846f76104b7ab694a29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 007/117] fix: image operations accepted a scalar coordinate
 for multi-dimensional images

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index e860b49..59dc102 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1794,7 +1794,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		dim += 1u;
 	}
 
-	if (dim > 1u && _pCoordType->getVectorComponentCount() < dim)
+	if (dim > 1u && _pCoordType->getScalarOrVectorLength() < dim)
 	{
 		module->logError("Dimension of coordinates does not match image type");
 		return false;
-- 
2.43.0


From e5c505d8f583374eb581f2191040405f5d3356f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 008/117] fix: dref sampling and single or unknown channel
 image reads inferred an invalid vector result type

---
 lib/source/TypeInferenceAndValiation.cpp | 31 +++++++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index ed35618..fd0fee9 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -385,12 +385,35 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		// Result Type must be a scalar or vector of floating-point type or integer type. It must be a scalar or vector with
 		// component type the same as Sampled Type of the OpTypeImage(unless that Sampled Type is OpTypeVoid)
 
-		unsigned int components = instr != spv::Op::OpImageRead ? 4u : getImageChannelCount(image->getImageFormat());
-		
+		unsigned int components = 4u;
+
+		switch (instr)
+		{
+		case spv::Op::OpImageSampleDrefImplicitLod:
+		case spv::Op::OpImageSampleDrefExplicitLod:
+		case spv::Op::OpImageSampleProjDrefImplicitLod:
+		case spv::Op::OpImageSampleProjDrefExplicitLod:
+			// Result Type must be a scalar of integer type or floating-point type. It must be the same as Sampled Type of the underlying OpTypeImage.
+			components = 1u;
+			break;
+		case spv::Op::OpImageRead:
+			if (unsigned int channels = getImageChannelCount(image->getImageFormat()); channels != 0u) // unknown format reads all components
+			{
+				components = channels;
+			}
+			break;
+		default:
+			break;
+		}
+
 		if (sampledType.isVoid())
 		{
-			// assume float4
-			return module->type<vector_t<float, 4>>();
+			// assume float(4)
+			return components == 1u ? module->type<float>() : module->type<vector_t<float, 4>>();
+		}
+		else if (components == 1u)
+		{
+			return module->addType(sampledType);
 		}
 		else
 		{
-- 
2.43.0


From 95d3a7a3109f2e8d70fda3a212def525ecd085e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 009/117] fix: size queries of one-dimensional images inferred
 a one component vector

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index fd0fee9..04b47d4 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -450,7 +450,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		auto dim = getImageDimension(type1->getImageDimension()) + (type1->getImageArray() ? 1u : 0u);
 
-		return module->addType(module->newType().Vector(dim).UIntM());
+		return dim == 1u ? module->type<unsigned int>() : module->addType(module->newType().Vector(dim).UIntM());
 	}
 	case spv::Op::OpImageQueryLod:
 		//Result Type must be a two - component floating - point type vector.
-- 
2.43.0


From 19d4036866dbea8f59d82e9d95dc7fdf6067f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 010/117] fix: image fetch accepted float, gather and
 projective sampling accepted integer coordinates

---
 lib/include/spvgentwo/InstructionTemplate.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b3ec547..dd77a79 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -695,14 +695,13 @@ namespace spvgentwo
 				return error();
 			}
 			isSampled = false;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
+			coordCheckArgs |= CheckImgCoord::MustBeInt;
 			break;
 		case spv::Op::OpImageDrefGather:
 			isDref = true; [[fallthrough]];
 		case spv::Op::OpImageGather:
 			isSampled = true;
 			isComponent = !isDref;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
 			if (spv::Dim d = imageType->getImageDimension(); d != spv::Dim::Dim2D && d != spv::Dim::Cube && d != spv::Dim::Rect)
 			{
 				module.logError("OpImageGather requres Dim of sampled image to be 2D, Cube or Rect");
@@ -711,7 +710,7 @@ namespace spvgentwo
 			break;
 		case spv::Op::OpImageSampleImplicitLod:			isSampled = true; break;
 		case spv::Op::OpImageSampleExplicitLod:			isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
-		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::IsProjective; break;
+		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleProjExplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleDrefImplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
-- 
2.43.0


From 889c50f52a6dc269fcacadc991924a1be94c979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 011/117] fix: validation of image operands dereferenced the
 type of a second operand that Offset and ConstOffset do not have

---
 lib/source/TypeInferenceAndValiation.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 04b47d4..6b872a3 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -44,10 +44,10 @@ namespace
 		const Type* type1 = op1 != nullptr ? op1->getType() : nullptr;
 		const Type* type2 = op2 != nullptr ? op2->getType() : nullptr;;
 
-		auto checkCoordAndOperandDim = [&]() ->bool
+		auto checkCoordAndOperandDim = [&](const Type* _pOperandType) ->bool
 		{
 			unsigned int coordLength = coordType->getScalarOrVectorLength() - (imageType->getImageArray() ? 1u : 0u);
-			if (coordLength != type1->getScalarOrVectorLength() || coordLength != type2->getScalarOrVectorLength())
+			if (_pOperandType == nullptr || coordLength != _pOperandType->getScalarOrVectorLength())
 			{
 				module->logError("Invalid derivative dimensions");
 				return false;
@@ -61,6 +61,12 @@ namespace
 			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
 			if ((opMask & mask) == mask)
 			{
+				if (type1 == nullptr && mask <= spv::ImageOperandsMask::MinLod)
+				{
+					module->logError("Image operand is missing or has no type");
+					return false;
+				}
+
 				switch (mask)
 				{
 				case spv::ImageOperandsMask::Bias:
@@ -68,11 +74,11 @@ namespace
 				case spv::ImageOperandsMask::Lod:
 					return module->logError(op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)");
 				case spv::ImageOperandsMask::Grad:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(type1) == false || checkCoordAndOperandDim(type2) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat) == false)
 					{
 						module->logError("Explicit lod grad operands must be scalar or vector of float");
 						return false;
@@ -86,11 +92,11 @@ namespace
 					}
 					[[fallthrough]];
 				case spv::ImageOperandsMask::Offset:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(type1) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false || type2->isBaseTypeOf(spv::Op::OpTypeInt))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false)
 					{
 						module->logError("Explicit lod grad operands must be scalar or vector of integer");
 						return false;
-- 
2.43.0


From 58f9b777e5bc0c6b92d7c632dff033b7a92d5576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 012/117] fix: opBitcast accepted operands and results that are
 neither numerical nor pointers

---
 lib/source/Instruction.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 59dc102..c10e408 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1693,9 +1693,10 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 		return error();
 	}
 
-	if ((operandType->isPointer() && resultType->isPointer()) ||
-		(operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
-			resultType->getScalarOrVectorLength() * resultType->getBaseType().getIntWidth()))
+	const unsigned int operandBits = operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth();
+	const unsigned int resultBits = resultType->getScalarOrVectorLength() * resultType->getBaseType().getIntWidth();
+
+	if ((operandType->isPointer() && resultType->isPointer()) || (operandBits != 0u && operandBits == resultBits))
 	{
 		return makeOp(spv::Op::OpBitcast, _pResultType, InvalidId, _pOperand);
 	}
-- 
2.43.0


From 1ee847a414c92df8c71510112c558c6aa4fe7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 013/117] fix: dynamic getSubType returned the type behind the
 one the last index selects, opAccessChain and opCompositeExtractDynamic used
 it

---
 lib/source/Instruction.cpp |  9 ++-------
 lib/source/Type.cpp        | 16 +++++++---------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c10e408..0b803ab 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1069,7 +1069,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 
 	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
 
-	if (it != nullptr)
+	if (it != nullptr && _indices.empty() == false)
 	{
 		it = it->getSubType(_indices);
 	}
@@ -1212,12 +1212,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(0u);
-
-	if (it != nullptr)
-	{
-		it = it->getSubType(_indices);
-	}
+	auto it = pBaseType->getSubType(_indices);
 
 	if (it != nullptr)
 	{
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 9072a08..bf1d42b 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -690,20 +690,18 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
-	auto it = m_subTypes.begin();
+	const List<Type>* subTypes = &m_subTypes;
+	Iterator it(nullptr);
 
 	for (auto i : _indices)
 	{
-		auto prev = it;
-		it = it + i;
-		if (it != nullptr)
+		if (subTypes->empty()) // i does not access anything
 		{
-			it = it->getSubTypes().begin();
-		}
-		else
-		{
-			return prev;
+			break;
 		}
+
+		it = subTypes->begin() + (i < subTypes->size() ? i : 0u);
+		subTypes = &it->m_subTypes;
 	}
 
 	return it;
-- 
2.43.0


From ea5807733b2d880fbba0c45d0a2d19bf13061b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 014/117] fix: opAccessChain accepted a base that is not a
 pointer

---
 lib/include/spvgentwo/InstructionTemplate.inl | 2 +-
 lib/source/Instruction.cpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index dd77a79..ba8500a 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -260,7 +260,7 @@ namespace spvgentwo
 
 		// Base must be a pointer, pointing to the base of a composite object.
 		const Type* pBaseType = _pBase->getType();
-		if (pBaseType == nullptr) return error();
+		if (pBaseType == nullptr || pBaseType->isPointer() == false) return error();
 
 		auto it = pBaseType->getSubType(0u, _indices...); // base is a pointer type, so 0 is used to get the inner type
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 0b803ab..8facb84 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1065,7 +1065,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 {
 	// Base must be a pointer, pointing to the base of a composite object.
 	const Type* pBaseType = _pBase->getType();
-	if (pBaseType == nullptr) return error();
+	if (pBaseType == nullptr || pBaseType->isPointer() == false) return error();
 
 	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
 
-- 
2.43.0


From a8d9a62415aaed4b565cc8c0ce7b235348729d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 015/117] fix: getSubType ignored indices that do not lead to a
 type, access chains and composite accesses were built with them

---
 lib/include/spvgentwo/Type.h | 14 ++++++++------
 lib/source/Type.cpp          |  9 ++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index cf80c54..35a0424 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -389,11 +389,11 @@ namespace spvgentwo
 		// return 1 if type is a scalar, return component count if type is vector, 0 otherwise
 		constexpr unsigned int getScalarOrVectorLength() const { return isScalar() ? 1u : isVector() ? getVectorComponentCount() : 0u; }
 
-		// depth first traversal of type hierarchy using integer indices (static variant), returns the iterator of the last valid type accessed by index
+		// depth first traversal of type hierarchy using integer indices (static variant), returns the iterator of the type accessed by the last index or nullptr if the indices do not lead to a type
 		template<class... Indices>
 		Iterator getSubType(unsigned int _i, Indices... _indices) const;
 
-		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the last valid type accessed by index
+		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the type accessed by the last index or nullptr if the indices do not lead to a type
 		Iterator getSubType(const List<unsigned int>& _indices) const;
 
 		// creates a new empty type from this types allocator
@@ -680,14 +680,16 @@ namespace spvgentwo
 	template<class ...Indices>
 	inline List<Type>::Iterator Type::getSubType(unsigned int _i, Indices ..._indices) const
 	{
+		if (isStruct() && _i >= m_subTypes.size())
+		{
+			return Iterator(nullptr); // no such member
+		}
+
 		auto it = m_subTypes.begin() + (_i < m_subTypes.size() ? _i : 0u);
 
 		if constexpr (sizeof...(_indices) > 0)
 		{
-			if (it != nullptr && it->m_subTypes.empty() == false)
-			{
-				return it->getSubType(_indices...);
-			}
+			return it != nullptr ? it->getSubType(_indices...) : Iterator(nullptr);
 		}
 
 		return it;
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index bf1d42b..8c1599c 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -690,18 +690,17 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
-	const List<Type>* subTypes = &m_subTypes;
+	const Type* type = this;
 	Iterator it(nullptr);
 
 	for (auto i : _indices)
 	{
-		if (subTypes->empty()) // i does not access anything
+		it = type->getSubType(i);
+		if (it == nullptr)
 		{
 			break;
 		}
-
-		it = subTypes->begin() + (i < subTypes->size() ? i : 0u);
-		subTypes = &it->m_subTypes;
+		type = &*it;
 	}
 
 	return it;
-- 
2.43.0


From 672cfc431db135a37107176595e1a669185183a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 016/117] fix: opArrayLength dereferenced the last member of a
 structure without members

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 8facb84..1c38418 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1104,7 +1104,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opArrayLength(Instruction* _pStr
 	if (type == nullptr) return error();
 
 
-	if (type->isPointer() == false || type->front().isStruct() == false || type->front().back().isRuntimeArray() == false)
+	if (type->isPointer() == false || type->front().isStruct() == false || type->front().getSubTypes().empty() || type->front().back().isRuntimeArray() == false)
 	{
 		getModule()->logError("Operand _pStructure of OpArrayLength must be a logical pointer to an OpTypeStruct whose last	member is a run-time array");
 		return error();
-- 
2.43.0


From 54722593066243beb25dc9ce76cf71e3eb178df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 017/117] fix: opImageWrite compared the number of texel
 components with the dimensions of the image

---
 lib/include/spvgentwo/InstructionTemplate.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index ba8500a..eb5043d 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -792,7 +792,8 @@ namespace spvgentwo
 
 		const Type& sampledType = imageType->front();
 
-		if (texelType->isScalarOrVectorOf(sampledType.getType(), getImageDimension(imageType->getImageDimension()) ) == false)
+		// Texel must be a scalar or vector with component type the same as Sampled Type of the OpTypeImage (unless that Sampled Type is OpTypeVoid)
+		if (texelType->isNumericalScalarOrVector() == false || (sampledType.isVoid() == false && texelType->hasSameBase(sampledType) == false))
 		{
 			module->logError("OpImageWrite texel type must be numerical scalar or vector of type %s", sampledType.getString());
 			return error();
-- 
2.43.0


From ba0d8edc6df9844f2270bce065cf38f846d3aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 018/117] fix: Div of a vector by a scalar of another type left
 a division behind before it failed

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1c38418..0f52aa4 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -621,7 +621,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::Div(Instruction* _pLeft, Instruc
 		return opFDiv(_pLeft, _pRight);
 	}
 	else if (BasicBlock* bb = getBasicBlock(); bb != nullptr && _allowVecDividedByScalar &&
-		lType->isVector() && rType->isScalar())
+		lType->isVector() && rType->isScalar() && lType->hasSameBase(*rType))
 	{
 		Instruction* one = nullptr;
 
-- 
2.43.0


From 7829229d72558641a95a195b2d9f8e568efdcf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 019/117] fix: operand validation dereferenced the first
 instruction of an empty branch target

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 6b872a3..49283ce 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -587,7 +587,7 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 				module->logError("Unassigned branchtarget operand (nullptr)");
 				return false;
 			}
-			else if (&op.branchTarget->front() == &_instr)
+			else if (op.branchTarget->empty() == false && &op.branchTarget->front() == &_instr)
 			{
 				module->logError("Recursive branch target instruction operand");
 				return false;
-- 
2.43.0


From 4551ef4312c2af513b3097cafe8ff917c6fecda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 020/117] fix: If left a branch block without terminator when
 the function for it adds no instruction

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 5832e83..7cbccd9 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -19,11 +19,11 @@ namespace spvgentwo
 		_false(falseBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);
 		}
-		if (falseBB.empty() == false && falseBB.back().isTerminator() == false)
+		if (falseBB.getTerminator() == nullptr)
 		{
 			falseBB->opBranch(&mergeBB);
 		}
@@ -45,7 +45,7 @@ namespace spvgentwo
 		_true(trueBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);		
 		}
-- 
2.43.0


From 9e6d174de65fd51ad5a3672bdcac016525d41c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 021/117] fix: Loop added a second terminator to body and
 continue blocks that were terminated already

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 10 ++++++++--
 lib/source/BasicBlock.cpp                    | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 7cbccd9..d4b81d1 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -79,10 +79,16 @@ namespace spvgentwo
 		condBB->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
 		_body(bodyBB);
-		bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		if (bodyBB.getTerminator() == nullptr) // check if user didnt exit controlflow
+		{
+			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		}
 
 		_continue(continueBB);
-		continueBB->opBranch(&loop); // back edge to loop merge
+		if (continueBB.getTerminator() == nullptr)
+		{
+			continueBB->opBranch(&loop); // back edge to loop merge
+		}
 
 		return mergeBB;
 	}
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 6400a62..4df19b6 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -214,8 +214,14 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, Bas
 	addInstruction()->opBranch(&condBB);
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
-	_body->opBranch(&_continue); // branch to "increment" / continue block
-	_continue->opBranch(this); // back edge to loop merge
+	if (_body.getTerminator() == nullptr)
+	{
+		_body->opBranch(&_continue); // branch to "increment" / continue block
+	}
+	if (_continue.getTerminator() == nullptr)
+	{
+		_continue->opBranch(this); // back edge to loop merge
+	}
 
 	return mergeBB;
 }
-- 
2.43.0


From 6b3b0a5542eef8eec8d6f3c62dd820059c836dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 022/117] fix: EntryPoint::finalize did not store the execution
 model

---
 lib/source/EntryPoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/source/EntryPoint.cpp b/lib/source/EntryPoint.cpp
index 1102789..d199fdb 100644
--- a/lib/source/EntryPoint.cpp
+++ b/lib/source/EntryPoint.cpp
@@ -50,6 +50,7 @@ spvgentwo::Instruction* spvgentwo::EntryPoint::finalize(const spv::ExecutionMode
 	{
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
 		m_nameStorage = _pEntryPointName;
+		m_ExecutionModel = _model;
 	}
 
 	return pFunc;
-- 
2.43.0


From 947507311ed43525cf2e6d9498a85eaf52c5baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 023/117] fix: EntryPoint constructor did not store the name of
 the entry point

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index 6a86a7a..c3625cb 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -6,7 +6,8 @@ namespace spvgentwo
 	inline EntryPoint::EntryPoint(Module* _pModule, const spv::ExecutionModel _model, const char* _pEntryPointName, const Flag<spv::FunctionControlMask> _control, Instruction* _pReturnType, TypeInstr* ..._paramTypeInstructions) :
 		Function(_pModule, _pEntryPointName, _control, _pReturnType, _paramTypeInstructions...),
 		m_EntryPoint(this, spv::Op::OpNop),
-		m_ExecutionModel(_model)
+		m_ExecutionModel(_model),
+		m_nameStorage(_pModule->getAllocator(), _pEntryPointName)
 	{
 		m_isEntryPoint = true;
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
-- 
2.43.0


From d15defa613e57cf35fecec8c6ac8c6ac424129e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 024/117] fix: collectReferencedVariables stopped at the first
 variable of an instruction

---
 lib/source/Function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 583abed..52981b1 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -380,7 +380,6 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						_outVarInstr.emplace_back(pArg);
 					}
-					break;
 				}
 			}
 		}
-- 
2.43.0


From 2baca6d224f6184024edac4f7f3cee1ea647a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 025/117] fix: Entry::insertBefore left the previous link of
 the entry as it was

---
 lib/include/spvgentwo/Entry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index eed12eb..6d8f75f 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -167,7 +167,8 @@ namespace spvgentwo
 
 		entry->m_pPrev = m_pPrev;
 		entry->m_pNext = this;
-		
+		m_pPrev = entry;
+
 		return entry;
 	}
 
-- 
2.43.0


From aa25f4deeccacc9153dc768c766f9c5dbaca50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 026/117] fix: List copy assignment from a shorter list kept
 links to the destroyed entries

---
 lib/include/spvgentwo/List.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a8339bf..b1998ad 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -182,9 +182,9 @@ namespace spvgentwo
 		}
 
 		// left side was longer, destroy rest
-		if(l != le)
+		while(l != le)
 		{
-			l.entry()->destroyList(m_pAllocator);
+			l = erase(l);
 		}
 
 		// right side was longer, emplace
-- 
2.43.0


From 67d7d3d295d8cb14f3222612e12a0e25733ec6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 027/117] fix: Vector::resize made the capacity the number of
 elements

---
 lib/include/spvgentwo/Vector.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d09c989..320a1e6 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -263,7 +263,7 @@ namespace spvgentwo
 	template<class U>
 	inline bool Vector<U>::resize(sgt_size_t _size, const T* _pInitValue)
 	{
-		if ( _size > m_capacity )
+		if ( _size > m_elements ) // grow
 		{
 			if ( reserve(_size) == false )
 			{
@@ -272,20 +272,20 @@ namespace spvgentwo
 
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{};
 				}
 			}
 			else if constexpr ( stdrep::is_copy_constructible_v<T> )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{ *_pInitValue };
 				}
 			}
 		}
-		else if ( _size < m_elements ) // shrink
+		else // shrink
 		{
 			// destruct shrinke elements
 			for ( sgt_size_t i = _size; i < m_elements; ++i )
@@ -294,7 +294,7 @@ namespace spvgentwo
 			}
 		}
 
-		m_elements = m_capacity;
+		m_elements = _size;
 
 		return true;
 	}
-- 
2.43.0


From e92d7f37731d2f041acf3e0ed0a41367cd251040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 028/117] fix: Vector::insert moved overlapping elements front
 to back, read past the inserted data and did not destroy moved elements

---
 lib/include/spvgentwo/Vector.h | 35 ++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 320a1e6..5e2441a 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -344,19 +344,30 @@ namespace spvgentwo
 		{
 			auto remainder = m_elements - _pos;
 
-			// move-construct last remainder elements to reserved but un-initialized data at the end
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
+			// move last remainder elements by _count, from the back because the ranges may overlap
+			for ( sgt_size_t i = _count == 0u ? 0u : remainder; i > 0u; --i )
 			{
-				traits::constructWithArgs(m_pData + _pos + _count + i, stdrep::move(m_pData[_pos + i]));
-			}
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
-			{
-				m_pData[_pos + i] = _pData[i];
+				const sgt_size_t src = _pos + i - 1u;
+
+				if ( src + _count < m_elements )
+				{
+					m_pData[src + _count] = stdrep::move(m_pData[src]);
+				}
+				else // reserved but un-initialized data at the end
+				{
+					traits::constructWithArgs(m_pData + src + _count, stdrep::move(m_pData[src]));
+				}
 			}
-			auto rest = _count - remainder;
-			for ( sgt_size_t i = 0u; i < rest; ++i )
+			for ( sgt_size_t i = 0u; i < _count; ++i )
 			{
-				traits::constructWithArgs(m_pData + m_elements + i, stdrep::move(_pData[remainder + i]));
+				if ( _pos + i < m_elements )
+				{
+					m_pData[_pos + i] = _pData[i];
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + _pos + i, _pData[i]);
+				}
 			}
 
 			m_elements += _count;
@@ -392,6 +403,10 @@ namespace spvgentwo
 
 			if ( m_pData != nullptr )
 			{
+				for ( sgt_size_t i = 0u; i < m_elements; ++i )
+				{
+					m_pData[i].~T();
+				}
 				m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 			}
 
-- 
2.43.0


From 1fdf944a245c0ce09b90d39f45f3fc982d907e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 029/117] fix: Vector::assign to all elements behind a position
 assigned none

---
 lib/include/spvgentwo/Vector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 5e2441a..d8aff70 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -314,7 +314,12 @@ namespace spvgentwo
 	template<class U>
 	inline void Vector<U>::assign(const T& _data, sgt_size_t _pos, sgt_size_t _count)
 	{
-		if ( _pos + _count > m_elements )
+		if ( _pos >= m_elements )
+		{
+			return;
+		}
+
+		if ( _count > m_elements - _pos )
 		{
 			_count = m_elements - _pos;
 		}
-- 
2.43.0


From 5a03ccfda6629d0403e6fe3d162a721a530dea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 030/117] fix: String::substr gave a string without terminator

---
 lib/source/String.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0452f5b..0dee44d 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -19,8 +19,16 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
-	const sgt_size_t available = m_elements - _offset;
-	return String(m_pAllocator, m_pData+_offset, _length > available ? available : _length);
+	String ret(m_pAllocator);
+
+	if (_offset < size() && _length > 0u)
+	{
+		const sgt_size_t available = size() - _offset;
+		ret.append(m_pData + _offset, _length > available ? available : _length);
+		ret.Vector::emplace_back('\0');
+	}
+
+	return ret;
 }
 
 spvgentwo::String spvgentwo::String::operator+(const String& _other) const
-- 
2.43.0


From 935d38317129dcfd02ccfd270c7f8ebeb45aba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 031/117] fix: String lost its terminator or wrote it over
 characters when appending to or inserting into it

---
 lib/include/spvgentwo/String.h |  8 ++++--
 lib/source/String.cpp          | 49 +++++++++++++++++++++++++++-------
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 6578866..f253467 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -45,7 +45,7 @@ namespace spvgentwo
 
 		constexpr String(String&& _other) noexcept : Vector(stdrep::move(_other)) {}
 
-		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) {};
+		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) { terminate(); }
 
 		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
@@ -78,7 +78,7 @@ namespace spvgentwo
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
 
-		Iterator insert(sgt_size_t _pos, const String& _str) { return Vector::insert(_pos, _str.data(), _str.size()); }
+		Iterator insert(sgt_size_t _pos, const String& _str);
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
@@ -89,6 +89,10 @@ namespace spvgentwo
 		// emplace one element per argument
 		template <class ...Args>
 		void emplace_back_args(const T& _first, Args&& ..._tail);
+
+	private:
+		// adds the string terminator if there are characters but no terminator
+		void terminate();
 	};
 
 	template<>
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0dee44d..0604464 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -17,6 +17,14 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 	return *this;
 }
 
+void spvgentwo::String::terminate()
+{
+	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
+	{
+		Vector::emplace_back('\0');
+	}
+}
+
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
 	String ret(m_pAllocator);
@@ -25,7 +33,6 @@ spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _leng
 	{
 		const sgt_size_t available = size() - _offset;
 		ret.append(m_pData + _offset, _length > available ? available : _length);
-		ret.Vector::emplace_back('\0');
 	}
 
 	return ret;
@@ -49,14 +56,16 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
-	if (reserve(m_elements + _other.m_elements))
+	const sgt_size_t length = _other.size();
+	if (length != 0u && reserve(m_elements + length + 1u))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
-		for (sgt_size_t i = 0; i < _other.m_elements; ++i)
+		for (sgt_size_t i = 0; i < length; ++i)
 		{
-			m_pData[offset + i] = _other[i];
+			m_pData[offset + i] = _other.m_pData[i];
 		}
-		m_elements = offset + _other.m_elements;
+		m_pData[offset + length] = '\0';
+		m_elements = offset + length + 1u;
 	}
 	return *this;
 }
@@ -69,7 +78,7 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
-	if (reserve(m_elements + length))
+	if (length != 0u && reserve(m_elements + length))
 	{
 		// we only want one string terminator, overwrite the old one an append
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
@@ -78,6 +87,7 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 			m_pData[offset + i] = _pStr[i];
 		}
 		m_elements = offset + length;
+		terminate();
 	}
 	return *this;
 }
@@ -113,12 +123,31 @@ bool spvgentwo::String::operator==(const char* _pStr) const
 
 spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length)
 {
-	auto ret = Vector::insert(_pos, _pCStr, _length == 0u ? (stringLength(_pCStr) - 1u) : _length);
+	const sgt_size_t length = _length == 0u && _pCStr != nullptr ? (stringLength(_pCStr) - 1u) : _length;
 
-	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
+	if (reserve(m_elements + length + 1u) == false) // space for the terminator, so that ret stays valid
+	{
+		return nullptr;
+	}
+
+	auto ret = Vector::insert(_pos, _pCStr, length);
+
+	// append string terminator if necessary
+	terminate();
+
+	return ret;
+}
+
+spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const String& _str)
+{
+	if (reserve(m_elements + _str.size() + 1u) == false) // space for the terminator, so that ret stays valid
 	{
-		// append string terminator if necessar
-		Vector::insert(m_elements, '\0');
+		return nullptr;
 	}
+
+	auto ret = Vector::insert(_pos, _str.data(), _str.size());
+
+	terminate();
+
 	return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 912f85e34f4c7c6ed5f5a75db0dcae7cdc611139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 032/117] fix: HashMap::findKey did not compile

---
 lib/include/spvgentwo/HashMap.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d29619f..6997438 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -323,14 +323,11 @@ namespace spvgentwo
 	{
 		for (auto i = 0u; i < m_Buckets; ++i)
 		{
-			for (Bucket& b : m_pBuckets[i])
+			for (Node& n : m_pBuckets[i])
 			{
-				for (Node& n : b)
+				if (n.kv.value == _value)
 				{
-					if (n.kv.value == _value)
-					{
-						return &n.kv.key;
-					}
+					return &n.kv.key;
 				}
 			}
 		}
-- 
2.43.0


From 23c538fd04c77a55f64ac3a09be213d52d367c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 033/117] fix: HashMap::eraseRange left the number of elements
 as it was

---
 lib/include/spvgentwo/HashMap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 6997438..027b226 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -261,6 +261,7 @@ namespace spvgentwo
 			if (it->hash == h)
 			{
 				it = bucket.erase(it);
+				--m_Elements;
 				++keys;
 			}
 			else 
-- 
2.43.0


From c53a5cd72db5839dc27dc5b5a23604768224c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 034/117] fix: HashMap::getRange gave elements with another
 hash that were between those it was asked for

---
 lib/include/spvgentwo/HashMap.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 027b226..908eb21 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -348,23 +348,32 @@ namespace spvgentwo
 	template<class ...Args>
 	inline typename HashMap<Key, Value>::Node& HashMap<Key, Value>::emplace(const Key& _key, Args&& ..._args)
 	{
-		Entry<Node>* pNode = Entry<Node>::create(m_pAllocator, _key, stdrep::forward<Args>(_args)...);
-
-		Node& n = pNode->inner();
+		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
 		{
-			n.hash = _key;
+			h = _key;
 		}
 		else
 		{
-			n.hash = m_pHashFunc(_key);
+			h = m_pHashFunc(_key);
 		}
 
-		const auto index = n.hash % m_Buckets;
+		Bucket& bucket = m_pBuckets[h % m_Buckets];
 
-		// append to chain
-		m_pBuckets[index].append_entry(pNode);
+		// append to chain, behind the last element with the same hash (if any), getRange() relies on them being adjacent
+		auto pos = bucket.last();
+		for (auto it = bucket.begin(); it != bucket.end(); ++it)
+		{
+			if (it->hash == h)
+			{
+				pos = it;
+			}
+		}
+
+		Node& n = pos == nullptr ? bucket.emplace_back(_key, stdrep::forward<Args>(_args)...) : **bucket.insert_after(pos, _key, stdrep::forward<Args>(_args)...);
+
+		n.hash = h;
 
 		++m_Elements;
 
-- 
2.43.0


From 443bf2bbb2ea36f8005c20655ef25d5547001b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 035/117] fix: HashMap::count could not be used with hashes as
 keys

---
 lib/include/spvgentwo/HashMap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 908eb21..2a469c7 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -73,7 +73,10 @@ namespace spvgentwo
 		unsigned int eraseRange(const Key& _key);
 
 		unsigned int count(const Hash64 _hash) const;
-		unsigned int count(const Key& _key) const { return count(m_pHashFunc(_key)); }
+
+		// only enable overload of Key type differs from Hash64
+		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
+		unsigned int count(const T& _key) const { return count(m_pHashFunc(_key)); }
 
 		constexpr const Bucket& getBucket(const unsigned int _index) const { return m_pBuckets[_index]; }
 		constexpr unsigned int getBucketCount() const { return m_Buckets; }
-- 
2.43.0


From f913c99e89a2a92fa00994c8b2aab5ecbabcded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 036/117] fix: HashMap::operator[] did not find elements of
 maps keyed by hashes

---
 lib/include/spvgentwo/HashMap.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 2a469c7..f614c7b 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -54,7 +54,17 @@ namespace spvgentwo
 		Value* get(const T& _key) const { return get(m_pHashFunc(_key)); }
 
 		// retuns nullptr if not resident
-		Value* operator[](const Key& _key) const { return get(m_pHashFunc(_key)); }
+		Value* operator[](const Key& _key) const
+		{
+			if constexpr (stdrep::is_same_v<Key, Hash64>)
+			{
+				return get(_key);
+			}
+			else
+			{
+				return get(m_pHashFunc(_key));
+			}
+		}
 
 		TRange getRange(const Hash64 _hash) const;
 
-- 
2.43.0


From b28a4a0b4a1fc3a1be4aacb7bb487e82a3f27d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 037/117] fix: a literal string without a terminator must not
 be read past the end of its instruction

---
 lib/source/Instruction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 0f52aa4..c193d6e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -356,8 +356,10 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		while (_operands-- > 0u)
+		while (_operands > 0u)
 		{
+			--_operands;
+
 			if (_reader.get(word) == false)
 			{
 				getModule()->logError("Unexpected end of instruction stream for %s", info->name);
@@ -371,7 +373,8 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			}
 		}
 
-		return true;
+		getModule()->logError("Unterminated literal string in %s", info->name);
+		return false;
 	};
 
 	auto parseId = [&](unsigned int& _operands) -> bool
-- 
2.43.0


From 11d2ecc1ab54b6bed362cc132e6d5167548233e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 038/117] fix: enumerant parameters must not be read past the
 end of their instruction

---
 lib/source/Instruction.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c193d6e..1a4c7ae 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -379,6 +379,12 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	auto parseId = [&](unsigned int& _operands) -> bool
 	{
+		if (_operands == 0u)
+		{
+			getModule()->logError("Missing operands for %s", info->name);
+			return false;
+		}
+
 		unsigned int word{ 0u };
 		if (_reader.get(word) == false)
 		{
@@ -392,6 +398,12 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	auto parseLiteral = [&](unsigned int& _operands) -> bool
 	{
+		if (_operands == 0u)
+		{
+			getModule()->logError("Missing operands for %s", info->name);
+			return false;
+		}
+
 		unsigned int word{ 0u };
 		if (_reader.get(word) == false)
 		{
-- 
2.43.0


From af3cfe498a19f0c360ee3c3e3d6ac165236da65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 039/117] fix: an instruction without any operand words must
 still be known and complete

---
 lib/source/Instruction.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1a4c7ae..f97a55b 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -337,11 +337,6 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	m_Operation = _op;
 
-	if (_operandCount == 0u)
-	{
-		return true; // nothing left to do
-	}
-
 	const Grammar::Instruction* info = _grammar.getInfo(static_cast<unsigned int>(m_Operation));
 
 	if (info == nullptr)
-- 
2.43.0


From 170ab8804310764a9cd043d601fd5fee04a6af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 040/117] fix: parameters of every bit of a mask operand must
 be read

---
 lib/source/Instruction.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index f97a55b..941c32d 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -511,16 +511,36 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			{
 				const unsigned int enumVal = back().getLiteral(); // last added operand
 
-				if (auto* params = _grammar.getOperandParameters(op.kind, enumVal); params != nullptr)
+				auto parseParameters = [&](unsigned int _enumVal) -> bool
 				{
-					for (const auto& param : *params)
+					if (auto* params = _grammar.getOperandParameters(op.kind, _enumVal); params != nullptr)
 					{
-						if (parseSimpleOps(_operandCount, param) == false)
+						for (const auto& param : *params)
+						{
+							if (parseSimpleOps(_operandCount, param) == false)
+							{
+								return false;
+							}
+						}
+					}
+					return true;
+				};
+
+				if (op.category == Grammar::OperandCategory::BitEnum)
+				{
+					// parameters of a mask follow in the order of its bits, lowest first
+					for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+					{
+						if ((enumVal & bit) != 0u && parseParameters(bit) == false)
 						{
 							return false;
 						}
 					}
 				}
+				else if (parseParameters(enumVal) == false)
+				{
+					return false;
+				}
 			}
 		}
 		else if (op.category == Grammar::OperandCategory::Id)
-- 
2.43.0


From c656ef6d1a13805ccc3d70788e34db43122164e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 041/117] fix: word counts of instruction headers must be
 validated

---
 lib/source/BasicBlock.cpp |  7 +++++++
 lib/source/Function.cpp   | 14 +++++++++++++-
 lib/source/Module.cpp     |  7 +++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 4df19b6..1ea9ec2 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -135,6 +135,13 @@ bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+
+		if (getOperandCount(word) == 0u) // every instruction has at least its first word
+		{
+			getModule()->logError("Invalid word count for operation %u", op);
+			return false;
+		}
+
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 52981b1..e805f1b 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -80,6 +80,13 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+
+		if (getOperandCount(word) == 0u) // every instruction has at least its first word
+		{
+			m_pModule->logError("Invalid word count for operation %u", op);
+			return false;
+		}
+
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		switch (op)
@@ -88,10 +95,15 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 			if (m_Parameters.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false) return false;
 			break;
 		case spv::Op::OpLabel:
+			if (operands != 1u) // OpLabel has only its result id
+			{
+				m_pModule->logError("Invalid word count for OpLabel");
+				return false;
+			}
 			if (addBasicBlock().read(_reader, _grammar) == false) return false;
 			break;
 		case spv::Op::OpFunctionEnd:
-			return true; // FunctionEnd has no operands
+			return operands == 0u; // FunctionEnd has no operands
 		default:
 			m_pModule->logError("Unexpected op-code for function");
 			return false; // unexpected op code
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4d0b47..aff158e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1214,6 +1214,13 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+
+		if (getOperandCount(word) == 0u) // every instruction has at least its first word
+		{
+			logError("Invalid word count for operation %u", op);
+			return false;
+		}
+
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (spv::IsTypeOp(op) || isSpecOrConstantOp(op))
-- 
2.43.0


From 9bcd5cfea7814a536533e94b8bdea71d232cd5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 042/117] fix: a basic block must end with a terminator before
 the next label or function

---
 lib/source/BasicBlock.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 1ea9ec2..e0d5310 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -144,6 +144,12 @@ bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
 
 		const unsigned int operands = getOperandCount(word) - 1u;
 
+		if (op == spv::Op::OpLabel || op == spv::Op::OpFunction || op == spv::Op::OpFunctionEnd)
+		{
+			getModule()->logError("Basic block is not terminated");
+			return false;
+		}
+
 		if (emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
 		{
 			break;
-- 
2.43.0


From 235e6f3bce614afd5798e559c1544a58bc17117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 043/117] fix: literal operands of the operation of an
 OpSpecConstantOp must not be read as ids

---
 lib/source/Instruction.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 941c32d..9074295 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -346,7 +346,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	}
 
 	auto it = info->operands.begin();
-	const auto end = info->operands.end();
+	auto end = info->operands.end();
 
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
@@ -447,17 +447,24 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
-			// remaining operands must be IDs
-			while (_operandCount > 0u)
+			// remaining operands are those of the operation itself (without result type and result id)
+			info = _grammar.getInfo(back().getLiteral());
+
+			if (info == nullptr)
 			{
-				if (parseId(_operandCount) == false)
-				{
-					return false;
-				}
+				getModule()->logError("Unkown op code %u in OpSpecConstantOp", back().getLiteral().value);
+				return false;
 			}
 
-			++it; // no more operands after this one
-			break; // end of instruction
+			it = info->operands.begin();
+			end = info->operands.end();
+
+			while (it != end && (it->kind == Grammar::OperandKind::IdResultType || it->kind == Grammar::OperandKind::IdResult))
+			{
+				++it;
+			}
+
+			continue; // next operand
 		}
 
 		if (op.category == Grammar::OperandCategory::Composite)
-- 
2.43.0


From f657fcf91fe530c9cfbe0cb46f3c2e52983b2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 044/117] fix: the access qualifier of a read OpTypeImage must
 be taken from its own operand

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index aff158e..4d152a7 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -993,7 +993,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				if (++it != nullptr)
 				{
-					t.setAccessQualifier(static_cast<spv::AccessQualifier>((++it)->getLiteral().value));
+					t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
 				}
 			}
 			break;
-- 
2.43.0


From 4735a7dd49d67acb0682b0533e99dcc949338c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 045/117] fix: the length of a read OpTypeArray must be an
 integer constant

---
 lib/source/Module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 4d152a7..6faa662 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -955,7 +955,8 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				t.Member(sub); // element type
 
 				Instruction* pConstInstr = (++it)->getInstruction();
-				if ( pConstInstr == nullptr || pConstInstr->getType()->isInt() == false)
+				const Type* pConstType = pConstInstr != nullptr ? pConstInstr->getType() : nullptr;
+				if (pConstType == nullptr || pConstType->isInt() == false || (*pConstInstr != spv::Op::OpConstant && *pConstInstr != spv::Op::OpSpecConstant))
 				{
 					logError("Array length constant not found or invalid type");
 					success = false;
@@ -963,7 +964,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 
 				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit->isLiteral())
+				if (cit != nullptr && cit->isLiteral())
 				{
 					t.setArrayLength(cit->literal); // array length
 				}
-- 
2.43.0


From 462eec763d81056ea41ccd66023d138e098aa9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 046/117] fix: read boolean constants must equal those made by
 Constant::make

---
 lib/source/Module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 6faa662..3facd3b 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1025,11 +1025,15 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			switch (instr.getOperation())
 			{
 			case spv::Op::OpConstantNull:
+				break; // nothing to do
 			case spv::Op::OpConstantTrue:
 			case spv::Op::OpSpecConstantTrue:
+				c.addData(true);
+				break;
 			case spv::Op::OpConstantFalse:
 			case spv::Op::OpSpecConstantFalse:
-				break; // nothing to do
+				c.addData(false);
+				break;
 			case spv::Op::OpConstant:
 			case spv::Op::OpSpecConstant:
 			case spv::Op::OpConstantSampler:
-- 
2.43.0


From da3be45a6f646a63b3e5ec7c32ac6e197d61a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 047/117] fix: the hash of a type must tell where the members
 of a nested type end

---
 lib/include/spvgentwo/Type.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 35a0424..75f6e48 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -669,6 +669,8 @@ namespace spvgentwo
 			_hasher << _type.getImageFormat();
 			_hasher << _type.getAccessQualifier();
 				
+			_hasher << static_cast<unsigned int>(_type.getSubTypes().size()); // where the subtypes of nested types end
+
 			for (const Type& sub : _type.getSubTypes()) {
 				operator()(sub, _hasher); // go deeper
 			}
-- 
2.43.0


From c2130af838f9917df09265f91d1c7849e617a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 048/117] fix: the hash of a constant must tell where its data
 and components end

---
 lib/include/spvgentwo/Constant.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/Constant.h b/lib/include/spvgentwo/Constant.h
index 8ddbf4d..e84f085 100644
--- a/lib/include/spvgentwo/Constant.h
+++ b/lib/include/spvgentwo/Constant.h
@@ -172,11 +172,13 @@ namespace spvgentwo
 		{
 			_hasher << _const.getOperation();
 			Hasher<Type>()(_const.getType(), _hasher);
+			_hasher << static_cast<unsigned int>(_const.getData().size());
 			for (const auto& l : _const.getData())
 			{
 				_hasher << l;
 			}
 
+			_hasher << static_cast<unsigned int>(_const.getComponents().size());
 			for (const Constant& component : _const.getComponents())
 			{
 				operator()(component, _hasher);
-- 
2.43.0


From 4c494deeacf0ca0293cb5866f32f4d3c4b8d6e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 049/117] fix: OpTypePipe must carry the access qualifier of
 its type

---
 lib/source/Module.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 3facd3b..d481560 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -622,6 +622,9 @@ spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char
 			pInstr->appendLiterals(_type.getAccessQualifier());
 		}
 		break;
+	case spv::Op::OpTypePipe:
+		pInstr->appendLiterals(_type.getAccessQualifier());
+		break;
 	default:
 		logFatal("Type [%u] not implemented", base);
 		break; // unknown type
@@ -998,6 +1001,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 			}
 			break;
+			case spv::Op::OpTypePipe:
+				t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
+				break;
 			default:
 				logError("Type [%u] not implemented", instr.getOperation());
 				success = false;
-- 
2.43.0


From 2cf8cf83b917d566c861f69ad2f5e6f781b412bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 050/117] fix: properties given to Type::make for an image or
 pipe must take effect

---
 lib/include/spvgentwo/Type.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 75f6e48..ba15a3e 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -804,6 +804,11 @@ namespace spvgentwo
 		else
 		{
 			fundamental<T>(traits::selectTypeFromArgs<T>(_props...));
+
+			if constexpr (sizeof...(_props) > 0 && (stdrep::is_same_v<T, dyn_image_t> || stdrep::is_same_v<T, pipe_t>))
+			{
+				setProperties(_props...); // override the properties fundamental() started from
+			}
 		}
 
 		return *this;
-- 
2.43.0


From 08631073385fe02621ef8d2629241b9cb9bde2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 051/117] fix: addTypeInstr and addConstantInstr must not keep
 pointers to the caller's objects

---
 lib/source/Module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index d481560..57f75d2 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -671,8 +671,8 @@ spvgentwo::Instruction* spvgentwo::Module::addTypeInstr(const Type* _pType)
 
 	if (_pType != nullptr)
 	{
-		m_TypeToInstr.emplaceUnique(*_pType, instr);
-		m_InstrToType.emplaceUnique(instr, _pType);
+		auto& node = m_TypeToInstr.emplaceUnique(*_pType, instr);
+		m_InstrToType.emplaceUnique(instr, &node.kv.key); // owned by this module, _pType may not outlive this call
 	}
 
 	return instr;
@@ -684,8 +684,8 @@ spvgentwo::Instruction* spvgentwo::Module::addConstantInstr(const Constant* _pCo
 
 	if (_pConstant != nullptr)
 	{
-		m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
-		m_InstrToConstant.emplaceUnique(instr, _pConstant);
+		auto& node = m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
+		m_InstrToConstant.emplaceUnique(instr, &node.kv.key); // owned by this module, _pConstant may not outlive this call
 	}
 
 	return instr;
-- 
2.43.0


From 283ebef3c68c6d78cff93933f4d738a167c959b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 052/117] fix: builders of GLSL.std.450 instructions must not
 dereference the type of an operand that has none

---
 lib/source/GLSL450Instruction.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 6bf091e..ff718dc 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -10,6 +10,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	if (pTypeInstr == nullptr) return error();
 
 	const Type* pType = pTypeInstr->getType();
+	if (pType == nullptr) return error();
 
 	if ((pType->isFloat() || pType->isVectorOfFloat()) && (_no64Bit ? pType->getBaseType().getFloatWidth() <= 32u : true))
 	{
@@ -205,13 +206,15 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	Instruction* significantType = _pFloat->getResultTypeInstr();
 	if (significantType == nullptr) return error();
 
+	const Type* pType = significantType->getType();
+	if (pType == nullptr) return error();
 
 	// Result Type must be an OpTypeStruct with two members. Member 0 must have the same type as the type of x.
 	// Member 0 holds the significand. Member 1 must be a scalar or vector with integer component type, with 32 - bit
 	// component width. Member 1 holds the exponent. These two members and x must have the same number of
 	// components.
 
-	Type exponent(*significantType->getType());
+	Type exponent(*pType);
 	exponent.front().Int(32);
 
 	Module* module = getModule();
@@ -318,6 +321,8 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opCross(Instruction* _pLef
 	if (pLeftTypeInstr == nullptr || pRightTypeInstr == nullptr) return error();
 
 	const Type* pType = pLeftTypeInstr->getType();
+	if (pType == nullptr) return error();
+
 	if (pLeftTypeInstr == pRightTypeInstr && pType->isVectorOfFloat(3u))
 	{
 		return opExtInst(pLeftTypeInstr, ExtName, static_cast<unsigned int>(glslstd450::Op::Cross), _pLeft, _pRight);
-- 
2.43.0


From f068461c2357b8551cd2f55e24e1f800a5a8550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 053/117] fix: opFrexpStruct must accept a scalar

---
 lib/source/GLSL450Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index ff718dc..83dbe80 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -215,7 +215,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	// components.
 
 	Type exponent(*pType);
-	exponent.front().Int(32);
+	(exponent.isVector() ? exponent.front() : exponent).Int(32);
 
 	Module* module = getModule();
 	Instruction* exponentType = module->addType(exponent);
-- 
2.43.0


From 767a427d71f6183551eb61f333ff4eda492e43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 054/117] fix: opLength and opDistance must accept scalars

---
 lib/source/GLSL450Instruction.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 83dbe80..f0c3ac6 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -280,15 +280,12 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLength(Instruction* _pX)
 	const Type* type = _pX->getType();
 	if (type == nullptr) return error();
 
-	if (type->isVectorOfFloat())
+	if (type->isScalarOrVectorOf(spv::Op::OpTypeFloat))
 	{
-		if (auto it = _pX->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
-		}
+		return opExtInst(getModule()->addType(type->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
 	}
 
-	getModule()->logError("Operand of opLength is not of type float vector");
+	getModule()->logError("Operand of opLength is not a float scalar or vector");
 
 	return error();
 }
@@ -302,10 +299,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opDistance(Instruction* _p
 
 	if (type1->isScalarOrVectorOfSameLength(spv::Op::OpTypeFloat, *type2))
 	{
-		if (auto it = _pP1->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
-		}
+		return opExtInst(getModule()->addType(type1->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
 	}
 
 	getModule()->logError("Operand type of opDistance is not a float scalar or vector");
-- 
2.43.0


From f19f5c6f912b2ddeebe1dfeebc0882e207027b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 055/117] fix: opLdexp must accept exponents of another width

---
 lib/source/GLSL450Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index f0c3ac6..9843d84 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -233,7 +233,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLdexp(Instruction* _pFlo
 
 	if (xType == nullptr || expType == nullptr) return error();
 
-	if (xType->isScalarOrVectorOfSameLength(*expType) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
+	if (xType->isScalarOrVectorOfSameLength(*expType, false) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
 	{
 		return opExtInst(resultType, ExtName, static_cast<unsigned int>(glslstd450::Op::Ldexp), _pFloatX, _pIntExp);
 	}
-- 
2.43.0


From f18dde709a4f854a1015e1c6a26635c8dc958f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 056/117] fix: opAtan2 and opPow must refuse 64-bit floats

---
 lib/include/spvgentwo/GLSL450Instruction.h | 6 +++---
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 77620d5..7de7866 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -42,8 +42,8 @@ namespace spvgentwo
 		Instruction* opAcosh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Acosh, _pFloat, true); }
 		Instruction* opAtanh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Atanh, _pFloat, true); }
 
-		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX); }
-		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY); }
+		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX, true); }
+		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY, true); }
 
 		Instruction* opExp(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Exp, _pFloat, true); }
 		Instruction* opLog(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Log, _pFloat, true); }
@@ -119,7 +119,7 @@ namespace spvgentwo
 
 	private:
 		Instruction* scalarOrFloatVec1(glslstd450::Op _op, Instruction* _pFloat, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
-		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
 		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 9843d84..87b69db 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -22,14 +22,14 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit, Instruction* _pResultType)
 {
 	const Type* leftType = _pOp1->getType();
 	const Type* rightType = _pOp2->getType();
 
 	if (leftType == nullptr || rightType == nullptr) return error();
 
-	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType)
+	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType && (_no64Bit ? leftType->getBaseType().getFloatWidth() <= 32u : true))
 	{
 		Instruction* returnType = _pResultType != nullptr ? _pResultType : _pOp1->getResultTypeInstr();
 		if (returnType == nullptr) return error();
-- 
2.43.0


From 174f9ee1baaf1e26e024bb02676d04f41d4d61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 057/117] fix: addCapability must add the secondary capability,
 not the primary one twice

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 57f75d2..547784e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -320,7 +320,7 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 		}
 		if (cap.secondary != spv::Capability::Max)
 		{
-			addCapability(cap.primary, true);
+			addCapability(cap.secondary, true);
 		}
 	}
 
-- 
2.43.0


From d639b5bbe7b294cf23ed07f9f513166b50f58701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 058/117] fix: addGlobalVariableInstr must be able to name the
 variable it adds

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 547784e..c7391f2 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -299,7 +299,7 @@ spvgentwo::Constant spvgentwo::Module::newConstant() const
 
 spvgentwo::Instruction* spvgentwo::Module::addGlobalVariableInstr(const char* _pName)
 {
-	Instruction* pVar = &m_GlobalVariables.emplace_back(this, spv::Op::OpNop);
+	Instruction* pVar = &m_GlobalVariables.emplace_back(this, _pName != nullptr ? spv::Op::OpVariable : spv::Op::OpNop); // target of opName must have a result
 
 	if (_pName != nullptr)
 	{
-- 
2.43.0


From 3631fa98fd84a939cee035c218fb6abe30b335cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 059/117] fix: getInstructionByName must only look at OpName

---
 lib/source/Module.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index c7391f2..6f648f5 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1708,7 +1708,10 @@ spvgentwo::Instruction* spvgentwo::Module::getInstructionByName(const char* _pNa
 {
 	for (Instruction& instr : m_Names) 
 	{
+		if (instr.getOperation() != spv::Op::OpName) continue; // second operand of OpMemberName is the member index
+
 		auto it = instr.getFirstActualOperand();
+		if (it == nullptr) continue;
 
 		if (Instruction* target = it->getInstruction(); target != nullptr)
 		{
-- 
2.43.0


From 52c84967618e189317c40bd9f3dbb8ac11c42bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 060/117] fix: compareLiteralString must stop at the given
 length and not accept unterminated literals

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 9074295..3c9c283 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -2111,7 +2111,7 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 	for (auto it = _begin; it != _end && it->isLiteral() && j < _StrLength; ++it)
 	{
 		const char* str = reinterpret_cast<const char*>(&it->literal.value);
-		for (unsigned int i = 0u; i < sizeof(unsigned int); ++i)
+		for (unsigned int i = 0u; i < sizeof(unsigned int) && j < _StrLength; ++i)
 		{
 			if (str[i] == '\0' && _pStr[j] == '\0')
 			{
@@ -2123,5 +2123,5 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 			}
 		}
 	};
-	return true;
+	return j >= _StrLength; // operands without string terminator are not equal to a string
 }
\ No newline at end of file
-- 
2.43.0


From 5358c1f5cc95f19513710e3944f117ac854e9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 061/117] fix: BinaryFileReader must read from the given offset
 and start over with every file

---
 common/source/BinaryFileReader.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 16fa62a..585bb59 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -20,6 +20,10 @@ bool spvgentwo::BinaryFileReader::get(unsigned int& _word)
 
 bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sgt_size_t _length)
 {
+	// discard words of a previous file
+	m_buffer.clear();
+	m_pos = 0u;
+
 	if (_path == nullptr)
 	{
 		return false;
@@ -52,12 +56,18 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 
 	if (file != nullptr)
 	{
-		if (fseek(file, static_cast<long>(_offset), SEEK_END) != 0) 
+		if (fseek(file, 0, SEEK_END) != 0) 
+		{
+			return false;
+		}
+
+		const long end = ftell(file);
+		if (end < 0 || _offset > static_cast<sgt_size_t>(end))
 		{
 			return false;
 		}
 
-		auto remaining = static_cast<sgt_size_t>(ftell(file));
+		const auto remaining = static_cast<sgt_size_t>(end) - _offset;
 		if (fseek(file, static_cast<long>(_offset), SEEK_SET) != 0u)
 		{
 			return false;
@@ -78,7 +88,12 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 				return false;
 			}
 
-			return fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count;
+			if (fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count)
+			{
+				return true;
+			}
+
+			m_buffer.clear(); // incomplete
 		}
 	}
 
-- 
2.43.0


From 2eb9a355946cd403b903773ab4df85531537810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 062/117] fix: writers must report words they could not store

---
 common/include/common/BinaryVectorWriter.h | 3 ++-
 common/source/BinaryFileWriter.cpp         | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/BinaryVectorWriter.h b/common/include/common/BinaryVectorWriter.h
index a85d637..e53c594 100644
--- a/common/include/common/BinaryVectorWriter.h
+++ b/common/include/common/BinaryVectorWriter.h
@@ -20,7 +20,8 @@ namespace spvgentwo
 	template<typename U32Vector>
 	inline bool BinaryVectorWriter<U32Vector>::put(unsigned int _word)
 	{
+		const auto size = m_vector.size();
 		m_vector.emplace_back(_word);
-		return true;
+		return m_vector.size() > size; // allocation may have failed
 	}
 } //!spvgentwo
diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index b29e441..1611ac4 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -14,8 +14,7 @@ spvgentwo::BinaryFileWriter::~BinaryFileWriter()
 
 bool spvgentwo::BinaryFileWriter::put(unsigned int _word)
 {
-	m_buffer.emplace_back(_word);
-	return true;
+	return m_buffer.emplace_back(_word) != nullptr;
 }
 
 bool spvgentwo::BinaryFileWriter::open(const char* _path)
-- 
2.43.0


From 28874b7de0ce77da7673afe94b9e6dcd03a092b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 063/117] fix: BinaryFileWriter::close must report words that
 could not be written

---
 common/include/common/BinaryFileWriter.h |  3 ++-
 common/source/BinaryFileWriter.cpp       | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/common/include/common/BinaryFileWriter.h b/common/include/common/BinaryFileWriter.h
index 2190b1c..ec32c34 100644
--- a/common/include/common/BinaryFileWriter.h
+++ b/common/include/common/BinaryFileWriter.h
@@ -17,7 +17,8 @@ namespace spvgentwo
 		bool isOpen() const { return m_pFile != nullptr; }
 		operator bool() const { return m_pFile != nullptr; }
 
-		void close();
+		// writes all words to the file and closes it, returns false if not all of them could be written
+		bool close();
 
 	private:
 		Vector<sgt_uint32_t> m_buffer;
diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index 1611ac4..28bb181 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -37,17 +37,21 @@ bool spvgentwo::BinaryFileWriter::open(const char* _path)
 	return m_pFile != nullptr;
 }
 
-void spvgentwo::BinaryFileWriter::close()
+bool spvgentwo::BinaryFileWriter::close()
 {
+	bool success = m_buffer.empty(); // words are lost without a file
+
 	if (m_pFile != nullptr)
 	{
 		if (m_buffer.empty() == false)
 		{
-			fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile));
+			success = fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile)) == m_buffer.size();
 		}
 
-		fclose(static_cast<FILE*>(m_pFile));
+		success = fclose(static_cast<FILE*>(m_pFile)) == 0 && success;
 		m_pFile = nullptr;
 	}
 	m_buffer.clear();
+
+	return success;
 }
\ No newline at end of file
-- 
2.43.0


From 4ecb11a0494e2c3f11b2f735382fc26110b7a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 064/117] fix: Function::write and BasicBlock::write must
 report failed writes

---
 lib/include/spvgentwo/BasicBlock.h |  2 +-
 lib/include/spvgentwo/Function.h   |  2 +-
 lib/source/BasicBlock.cpp          |  8 +++++---
 lib/source/Function.cpp            | 10 +++++-----
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlock.h b/lib/include/spvgentwo/BasicBlock.h
index f39e3c4..57a922a 100644
--- a/lib/include/spvgentwo/BasicBlock.h
+++ b/lib/include/spvgentwo/BasicBlock.h
@@ -64,7 +64,7 @@ namespace spvgentwo
 		// return last operation
 		operator Instruction* () const { return m_pLast != nullptr ? m_pLast->operator->() : nullptr; };
 
-		void write(IWriter& _writer) const;
+		bool write(IWriter& _writer) const;
 
 		bool read(IReader& _reader, const Grammar& _grammar);
 
diff --git a/lib/include/spvgentwo/Function.h b/lib/include/spvgentwo/Function.h
index 8064c62..b1bd989 100644
--- a/lib/include/spvgentwo/Function.h
+++ b/lib/include/spvgentwo/Function.h
@@ -79,7 +79,7 @@ namespace spvgentwo
 		BasicBlock& operator*() { return m_pBegin->inner(); }
 
 		// write OpFunction OpFunctionParameters <BasicBlocks> OpFunctionEnd to IWriter
-		void write(IWriter& _writer) const;
+		bool write(IWriter& _writer) const;
 
 		// read function from IReader user _grammer, assuming OpFunction was already parsed/consumed by module::read(Reader* _pReader)
 		bool read(IReader& _rader, const Grammar& _grammar, Instruction&& _opFunc);
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index e0d5310..e338aee 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -115,14 +115,16 @@ spvgentwo::Instruction* spvgentwo::BasicBlock::returnValue(Instruction* _pValue)
 	return nullptr;
 }
 
-void spvgentwo::BasicBlock::write(IWriter& _writer) const
+bool spvgentwo::BasicBlock::write(IWriter& _writer) const
 {
-	m_Label.write(_writer);
+	if (m_Label.write(_writer) == false) return false;
 
 	for (Instruction& instr : *this)
 	{
-		instr.write(_writer);
+		if (instr.write(_writer) == false) return false;
 	}
+
+	return true;
 }
 
 bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index e805f1b..b794f87 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -53,21 +53,21 @@ spvgentwo::Function& spvgentwo::Function::operator=(Function&& _other) noexcept
 	return *this;
 }
 
-void spvgentwo::Function::write(IWriter& _writer) const
+bool spvgentwo::Function::write(IWriter& _writer) const
 {
-	m_Function.write(_writer);
+	if (m_Function.write(_writer) == false) return false;
 
 	for (const Instruction& instr : m_Parameters)
 	{
-		instr.write(_writer);
+		if (instr.write(_writer) == false) return false;
 	}
 
 	for (const BasicBlock& bb : *this)
 	{
-		bb.write(_writer);
+		if (bb.write(_writer) == false) return false;
 	}
 
-	m_FunctionEnd.write(_writer);
+	return m_FunctionEnd.write(_writer);
 }
 
 bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instruction&& _opFunc)
-- 
2.43.0


From 6f535a53e3823948e5d88c8b657e3ceadac660ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 065/117] fix: Operand::write must fail for operands that refer
 to nothing

---
 lib/source/Operand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Operand.cpp b/lib/source/Operand.cpp
index 740c014..d1aba59 100644
--- a/lib/source/Operand.cpp
+++ b/lib/source/Operand.cpp
@@ -8,9 +8,9 @@ bool spvgentwo::Operand::write(IWriter& _writer) const
 	switch (type)
 	{
 	case Type::Instruction:
-		return _writer.put(static_cast<unsigned int>(instruction->getResultId()));
+		return instruction != nullptr && _writer.put(static_cast<unsigned int>(instruction->getResultId()));
 	case Type::BranchTarget:
-		return _writer.put(static_cast<unsigned int>(branchTarget->getLabel()->getResultId()));
+		return branchTarget != nullptr && _writer.put(static_cast<unsigned int>(branchTarget->getLabel()->getResultId()));
 	case Type::Literal:
 		return _writer.put(literal.value);
 	case Type::Id:
-- 
2.43.0


From 719e72b04b53049a4390634cfef718877731735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 066/117] fix: SpvGenTwoDisassembler returned success for
 unreadable input and unwritten output

---
 dis/source/dis.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dis/source/dis.cpp b/dis/source/dis.cpp
index 682cf2b..88f087a 100644
--- a/dis/source/dis.cpp
+++ b/dis/source/dis.cpp
@@ -97,15 +97,18 @@ int main(int argc, char* argv[])
 
 		if (serialize)
 		{
-			if (BinaryFileWriter writer(alloc, "serialized.spv"); writer.isOpen())
+			BinaryFileWriter writer(alloc, "serialized.spv");
+			if (writer.isOpen() == false || module.finalizeAndWrite(writer) == false || writer.close() == false)
 			{
-				module.finalizeAndWrite(writer);
+				logger.logError("Failed to write serialized.spv");
+				return -1;
 			}
 		}
 	}
 	else
 	{
 		logger.logError("Failed to open %s", spv);
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From b89ccffa2da256c080920277cc191de2d54f76e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 067/117] fix: SpvGenTwoLinker must report output that could
 not be written

---
 link/source/link.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 6c2c789..8b1d680 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -88,7 +88,12 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 		return -1;
 	}
 
-	_module.finalizeAndWrite(writer);
+	if (_module.finalizeAndWrite(writer) == false || writer.close() == false)
+	{
+		g_logger.logError("Failed to write \'%s\'", _out);
+		return -1;
+	}
+
 	return 0;
 }
 
@@ -115,7 +120,7 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	_target.finalizeEntryPoints();
 
 	// don't need to call assignIDs, we are using AssignResultIDs
-	if (_target.write(writer) == false) 
+	if (_target.write(writer) == false || writer.close() == false)
 	{
 		g_logger.logError("Failed to write \'%s\'", _out);
 		return -1;
-- 
2.43.0


From be9aead3a11381cb82b477bbcf2027b361a3ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 068/117] fix: SpvGenTwoLinker passed a Grammar::Instruction
 for a format string argument

---
 link/source/link.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 8b1d680..03e273f 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -72,7 +72,8 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 
 		if (*t.instr != spv::Op::OpFunction && *t.instr != spv::Op::OpVariable)
 		{
-			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation())));
+			const Grammar::Instruction* info = g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation()));
+			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", info != nullptr ? info->name : "");
 			return -1;
 		}
 
-- 
2.43.0


From 1c3598bdf1971f61892665ea18840dc12dc6db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 069/117] fix: SpvGenTwoLinker carried on when an argument
 failed

---
 link/source/link.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 03e273f..2e9e0f0 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -130,7 +130,7 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	return 0;
 }
 
-void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
+bool addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 {
 	Instruction* instr = nullptr;
 	const char* target = _argv[++_i];
@@ -145,8 +145,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 
 	if (instr == nullptr)
 	{
-		g_logger.logError("Could not find %s in %s", target, g_patchspv);
-		return;
+		g_logger.logError("Could not find %s in %s", target, g_patchspv != nullptr ? g_patchspv : "");
+		return false;
 	}
 
 	if (const char* name = _argv[++_i]; name != nullptr)
@@ -160,7 +160,10 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 
 		g_targets.emplace_back(instr, name, type, exportVars);
 		g_logger.logInfo("Adding %s target instruction \'%s\' with name \'%s\'", type == spv::LinkageType::Import ? "import" : "export", target, name);
+		return true;
 	}
+
+	return false;
 }
 
 int main(int argc, char* argv[])
@@ -282,16 +285,14 @@ int main(int argc, char* argv[])
 		{ // import symbol
 			"-import", "-i",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Import, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Import, _i, _argc, _argv);
 			},
 			2 // symbol name and export name
 		},
 		{ // import symbol
 			"-export", "-e",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Export, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Export, _i, _argc, _argv);
 			},
 			2 // symbol name and export name and -vars (optional)
 		}
@@ -324,13 +325,16 @@ int main(int argc, char* argv[])
 				return false;
 			}
 		}
-		g_logger.logWarning("Unkown parameter %s", arg);
-		return false;
+		g_logger.logWarning("Unkown parameter %s", arg); // ignored
+		return true;
 	};
 
 	for (int i = 1; i < argc; ++i)
 	{
-		checkParam(argv[i], i);
+		if (checkParam(argv[i], i) == false)
+		{
+			return -1;
+		}
 	}
 
 	if (g_targets.empty() == false)
-- 
2.43.0


From 4e03c5df313ed2ddf24fb69b4d1144e586691bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 070/117] fix: SpvGenTwoLinker accepted entry points as import
 and export targets

---
 link/source/link.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 2e9e0f0..ae44ae4 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -70,7 +70,8 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 			}
 		}
 
-		if (*t.instr != spv::Op::OpFunction && *t.instr != spv::Op::OpVariable)
+		const bool entryPoint = *t.instr == spv::Op::OpFunction && t.instr->getFunction()->isEntryPoint();
+		if (entryPoint || (*t.instr != spv::Op::OpFunction && *t.instr != spv::Op::OpVariable))
 		{
 			const Grammar::Instruction* info = g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation()));
 			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", info != nullptr ? info->name : "");
-- 
2.43.0


From c07dfb8fb7e3fb4586b07ff7fccffb85a6c60df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 071/117] fix: LinkerOptionBits::RemoveLinkageCapability had
 the value of AssignResultIDs

---
 common/include/common/LinkerHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/LinkerHelper.h b/common/include/common/LinkerHelper.h
index cd669d7..45e2465 100644
--- a/common/include/common/LinkerHelper.h
+++ b/common/include/common/LinkerHelper.h
@@ -42,7 +42,7 @@ namespace spvgentwo
 			ImportReferencedVariables = 1 << 6, // global variables referenced in (auto) imported functions
 			ImportReferencedStrings = 1 << 7, // global strings referenced in OpLine etc
 			AssignResultIDs = 1 << 8, // on-the-fligh assing ResultIds while transfering instructions from lib to consumber module (leaves original IDs intact, can improve performance if module.assignIDs() is not used)
-			RemoveLinkageCapability = 1 << 8, // remove linkage capability from the consumer library if all imports and exports have been resolved
+			RemoveLinkageCapability = 1 << 9, // remove linkage capability from the consumer library if all imports and exports have been resolved
 			AutoAddRequiredCapabilitiesAndExtensions = 1 << 10, // instead of copying ALL Capabilities & Extensions from the all libs to the consumer module, use LinkerOptions.grammar to select only required Caps & Exts for the consumer module.
 			UpdateEntryPointGlobalVarInterface = 1 << 11, // Add global variables referenced by the consumer EntryPoints to their OpEntryPoint, this should always be switched on unless Module.finalizeEntryPoints() is called after linking.
 			CopyOpSourceStringInstructions = 1 << 12, // Copy OpString, OpSource, OpSourceContinued and OpSourceExtension instructions from lib to consumer module
-- 
2.43.0


From ebe478d5b81da743bb8a0648cfd92f05ac1b4b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 072/117] fix: LinkerHelper::import removed the Linkage
 capability although imports were left

---
 common/source/LinkerHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4fbd87e..84345a6 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -579,6 +579,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	List<ImportSymbol> iFuncs(pAllocator);
 
 	bool hasExports = false;
+	bool allImportsResolved = true;
 
 	// gather symbols to import
 	for (auto it = _consumer.getDecorations().begin(), end = _consumer.getDecorations().end(); it != end; ++it)
@@ -610,6 +611,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 			else
 			{
 				info("Symbol %s not found in import module", name.c_str()); // just an info because it could be in a different import module
+				allImportsResolved = false;
 			}
 		}
 		else if (type == spv::LinkageType::Export)
@@ -700,7 +702,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	bool allImportsResolved = true;
 	// import variables first in case they are used in the imported function
 	for (const ImportSymbol& var : iVars)
 	{
-- 
2.43.0


From c76c6bb57f9b4ace1e20aa853e3a9d7bcccad943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 073/117] fix: LinkerHelper::import turned the name of a struct
 into a member name

---
 common/source/LinkerHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 84345a6..1c6b28c 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -737,7 +737,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
 					{
-						if (*lTarget == spv::Op::OpTypeStruct)
+						if (n.kv.value.member != sgt_uint32_max)
 						{
 							_consumer.addMemberName(cTarget, n.kv.value.name.c_str(), n.kv.value.member);
 						}
-- 
2.43.0


From f6ccf129e12bdb4721d05fded578d422e813ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 074/117] fix: LinkerHelper::import transferred functions
 before the symbols they use were known

---
 common/source/LinkerHelper.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 1c6b28c..58367c7 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -649,6 +649,25 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		success &= copy(_lib.getModulesProcessed(), [&]() -> Instruction* { return _consumer.addModuleProccessedInstr(); });
 	}
 
+	// import variables first in case they are used in the imported function
+	for (const ImportSymbol& var : iVars)
+	{
+		if (success &= importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options); success)
+		{
+			_consumer.getDecorations().erase(var.decoIt); // remove if successful
+		}
+		else { allImportsResolved = false; }
+	}
+
+	// functions can call each other, they need to be known before the first one is transfered
+	for (const ImportSymbol& func : iFuncs)
+	{
+		if (*func.consume == spv::Op::OpFunction)
+		{
+			cache.emplaceUnique(func.lib, func.consume);
+		}
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedFunctions)
 	{
 		// gather all functions called from all the iFuncs we want to import
@@ -702,16 +721,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	// import variables first in case they are used in the imported function
-	for (const ImportSymbol& var : iVars)
-	{
-		if (success &= importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options); success)
-		{
-			_consumer.getDecorations().erase(var.decoIt); // remove if successful
-		}
-		else { allImportsResolved = false; }
-	}
-
 	for (const ImportSymbol& func : iFuncs)
 	{
 		if (success &= importSymbolImpl(_consumer, func.lib, func.consume, func.name, cache, _options); success)
-- 
2.43.0


From 942e91475b76d21a7c249eddc676c47842f3e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 075/117] fix: LinkerHelper::import carried on with the
 incomplete instructions of a failed transfer

---
 common/source/LinkerHelper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 58367c7..34579e3 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -730,6 +730,11 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		else { allImportsResolved = false; }
 	}
 
+	if (success == false) // instructions which could not be transfered are incomplete
+	{
+		return false;
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedNames)
 	{
 		for (const Instruction& name : _lib.getNames())
-- 
2.43.0


From 1bf9b541be63d0e2103459e3fc763de28a3276c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 076/117] fix: LinkerHelper::import dereferenced the operand
 OpDecorationGroup does not have

---
 common/source/LinkerHelper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 34579e3..6df56c8 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -771,7 +771,13 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		{
 			if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
-				const Instruction* lTarget = lDeco.getFirstActualOperand()->getInstruction();
+				const auto target = lDeco.getFirstActualOperand();
+				if (target == nullptr || target->isInstruction() == false) // OpDecorationGroup has no target
+				{
+					continue;
+				}
+
+				const Instruction* lTarget = target->getInstruction();
 				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
-- 
2.43.0


From 6c67d5263c2df8d3ce1338af93c479e916c12412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 077/117] fix: LinkerHelper::import decorated symbols twice
 that are decorated in library and consumer

---
 common/source/LinkerHelper.cpp | 36 +++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 6df56c8..efafc1d 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -398,6 +398,24 @@ namespace
 		return true;
 	}
 
+	inline bool isSameInstruction(const spvgentwo::Instruction& _left, const spvgentwo::Instruction& _right)
+	{
+		if (_left.getOperation() != _right.getOperation() || _left.size() != _right.size())
+		{
+			return false;
+		}
+
+		for (auto l = _left.begin(), r = _right.begin(), end = _left.end(); l != end; ++l, ++r)
+		{
+			if ((*l == *r) == false)
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
 	inline bool transferBasicBlock(const spvgentwo::BasicBlock& _lBB, spvgentwo::BasicBlock& _cBB, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
 		bool success = true;
@@ -780,8 +798,24 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				const Instruction* lTarget = target->getInstruction();
 				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
 				{
+					List<Instruction>& decorations = _consumer.getDecorations();
 					Instruction* cDeco = _consumer.addDecorationInstr();
-					success &= transferInstruction(&lDeco, cDeco, cache, _options);
+
+					if (transferInstruction(&lDeco, cDeco, cache, _options) == false)
+					{
+						success = false;
+						continue;
+					}
+
+					// the same decoration must not be applied twice
+					for (const Instruction& deco : decorations)
+					{
+						if (&deco != cDeco && isSameInstruction(deco, *cDeco))
+						{
+							decorations.erase(decorations.last());
+							break;
+						}
+					}
 				}
 			}
 		}
-- 
2.43.0


From 64fb0045604387d06e2efacfcf676bb2d862c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 078/117] fix: LinkerHelper::import could not transfer OpPhi
 that refers to a following instruction

---
 common/source/LinkerHelper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index efafc1d..2c78e24 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -201,7 +201,7 @@ namespace
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
 
-		if (_cache.find(_pLibInstr) != _cache.end())
+		if (Instruction** ppTarget = _cache[_pLibInstr]; ppTarget != nullptr && *ppTarget != _pTarget)
 		{
 			return true;
 		}
@@ -422,9 +422,11 @@ namespace
 
 		printInstruction(_options, _lBB.getLabel(), " -> ", _cBB.getLabel());
 
+		auto cit = _cBB.begin();
 		for (const spvgentwo::Instruction& lInstr : _lBB)
 		{
-			success &= transferInstruction(&lInstr, _cBB.addInstruction(), _cache, _options);
+			success &= transferInstruction(&lInstr, cit.operator->(), _cache, _options);
+			++cit;
 		}
 
 		return success;
@@ -483,6 +485,16 @@ namespace
 		{
 			auto& cBB = _cFunc.addBasicBlock();
 			_cache.emplaceUnique(lBB.getLabel(), assignId(cBB.getLabel(), _options));
+
+			// the same is true for results, OpPhi can refer to instructions which follow
+			for (const Instruction& lInstr : lBB)
+			{
+				Instruction* cInstr = cBB.addInstruction();
+				if (lInstr.hasResult())
+				{
+					_cache.emplaceUnique(&lInstr, cInstr);
+				}
+			}
 		}
 
 		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
-- 
2.43.0


From cb5441574d64e78457029d0053b6fe8d8e4ad817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 079/117] fix: LinkerHelper::import lost names and decorations
 of nested types

---
 common/source/LinkerHelper.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 2c78e24..c2e559b 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -196,6 +196,25 @@ namespace
 		return instr;
 	}
 
+	// cache the types and constants an instruction that has been added by value consists of, they can be decorated and named too
+	inline void cacheOperands(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache)
+	{
+		using namespace spvgentwo;
+
+		auto cit = _pTarget->begin();
+		for (auto lit = _pLibInstr->begin(); lit != _pLibInstr->end() && cit != _pTarget->end(); ++lit, ++cit)
+		{
+			const Instruction* lib = lit->getInstruction();
+			Instruction* target = cit->getInstruction();
+
+			if (lib != nullptr && target != nullptr && lib->getOperation() == target->getOperation() && _cache[lib] == nullptr)
+			{
+				_cache.emplaceUnique(lib, target);
+				cacheOperands(lib, target, _cache);
+			}
+		}
+	}
+
 	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
 		using namespace spvgentwo;
@@ -341,6 +360,7 @@ namespace
 				if (cached == false)
 				{
 					_cache.emplaceUnique(lib, cInstr);
+					cacheOperands(lib, cInstr, _cache);
 					if (_options & LinkerOptionBits::AssignResultIDs)
 					{
 						cInstr->assignResultId(false);
@@ -475,6 +495,7 @@ namespace
 			Instruction* cType = cParam->getResultTypeInstr();
 
 			_cache.emplaceUnique(lParam->getResultTypeInstr(), cType);
+			cacheOperands(lParam->getResultTypeInstr(), cType, _cache);
 			_cache.emplaceUnique(lParam, cParam);
 
 			printInstruction(_options, lParam, " -> ", cParam); // OpFunctionParameter
@@ -554,6 +575,7 @@ namespace
 
 			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
 			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
+			cacheOperands(_libSymbol, _consumerSymbol, _cache);
 		}
 		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
 		{
-- 
2.43.0


From 73e2e8cecc486e3b577a3dbd0610a122b1ba4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:32 +0000
Subject: [PATCH 080/117] fix: LinkerHelper::import could not transfer OpUndef
 of the module scope

---
 common/source/LinkerHelper.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index c2e559b..e9fed5a 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -330,6 +330,20 @@ namespace
 					reported = true;
 				}
 			}
+			else if (*lib == spv::Op::OpUndef)
+			{
+				if (_options & LinkerOptionBits::ImportMissingConstants)
+				{
+					cInstr = module->addUndefInstr();
+					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
+					cached = true;
+				}
+				else
+				{
+					operandError("OpUndef", "Use \'ImportMissingConstants\'.");
+					reported = true;
+				}
+			}
 			else if (*lib == spv::Op::OpFunction)
 			{
 				operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
-- 
2.43.0


From 9c9a62e987bc333ea0cceea4e6311ec3572b7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 081/117] fix: LinkerHelper::import doubled the constituents of
 specialization constant composites

---
 common/source/LinkerHelper.cpp | 287 ++++++++++++++++++---------------
 1 file changed, 155 insertions(+), 132 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index e9fed5a..ce44ca1 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -215,181 +215,204 @@ namespace
 		}
 	}
 
-	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
-	{
-		using namespace spvgentwo;
-		using namespace LinkerHelper;
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options);
 
-		if (Instruction** ppTarget = _cache[_pLibInstr]; ppTarget != nullptr && *ppTarget != _pTarget)
+	inline const char* getInstrName(const spvgentwo::LinkerHelper::LinkerOptions& _options, const spvgentwo::Instruction* instr, const char* alt = nullptr)
+	{
+		if (_options.grammar != nullptr)
 		{
-			return true;
+			if (auto* info = _options.grammar->getInfo(static_cast<unsigned int>(instr->getOperation())); info != nullptr)
+			{
+				return info->name;
+			}
 		}
 
-		Module* module = _pTarget->getModule();
-		if (module == nullptr) { return false; }
+		return alt;
+	}
 
-		auto getInstrName = [&_options](const Instruction* instr, const char* alt = nullptr) -> const char*
-		{
-			if (_options.grammar != nullptr)
-			{
-				if (auto* info = _options.grammar->getInfo(static_cast<unsigned int>(instr->getOperation())); info != nullptr)
-				{
-					return info->name;
-				}
-			}
+	inline const char* getSymbolName(const spvgentwo::Instruction* instr)
+	{
+		const char* name = instr->getName();
+		return name != nullptr ? name : "UNNAMED";
+	}
 
-			return alt;
-		};
+	// finds or imports the counterpart of lib, an operand of _pLibInstr
+	inline spvgentwo::Instruction* importOperand(const spvgentwo::Instruction* lib, const spvgentwo::Instruction* _pLibInstr, spvgentwo::Module* module, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
 
-		auto getSymbolName = [](const Instruction* instr) -> const char*
+		auto error = [module](auto&& ... args) {module->logError(args...); };
+
+		auto operandError = [&](const char* operandInstrName = "", const char* hint = "")
 		{
-			const char* name = instr->getName();
-			return name != nullptr ? name : "UNNAMED";
+			error("[%%%u = %s] operand '%s' %s not found! %s", _pLibInstr->getResultId(), getInstrName(_options, _pLibInstr, ""), getSymbolName(lib), getInstrName(_options, lib, operandInstrName), hint);
 		};
 
-		auto error = [module](auto&& ... args) {module->logError(args...); };
+		Instruction* cInstr = nullptr;
 
-		// instruction parent must be be set before calling this function
-		_pTarget->setOperation(_pLibInstr->getOperation());
+		bool reported = false;
+		bool cached = false;
 
-		auto lookupOperand = [&](const Instruction* lib) -> bool
+		if (Instruction** ppTarget = _cache[lib]; ppTarget != nullptr)
+		{
+			cInstr = *ppTarget;
+			cached = true;
+		}
+		else if (lib->isSpecOrConstant())
 		{
-			auto operandError = [&](const char* operandInstrName = "", const char* hint = "")
+			if ( _options & LinkerOptionBits::ImportMissingConstants )
 			{
-				error("[%%%u = %s] operand '%s' %s not found! %s", _pLibInstr->getResultId(), getInstrName(_pLibInstr, ""), getSymbolName(lib), getInstrName(lib, operandInstrName), hint);
-			};
-
-			Instruction* cInstr = nullptr;
-
-			bool reported = false;
-			bool cached = false;
+				if ( const Constant* c = lib->getConstant(); c != nullptr && *lib != spv::Op::OpSpecConstantComposite )
+				{
+					cInstr = addTypeOrConstants([&]() { return module->addConstant(*c); }, *module, _options);
+				}
+				else // fallback to generic transfer for spec constants
+				{
+					for (const Operand& op : *lib) // operands have to be declared first
+					{
+						if (op.isInstruction() && importOperand(op.getInstruction(), lib, module, _cache, _options) == nullptr) return nullptr;
+					}
 
-			if (Instruction** ppTarget = _cache[lib]; ppTarget != nullptr)
+					cInstr = module->addConstantInstr();
+					if ( transferInstruction(lib, cInstr, _cache, _options) == false) return nullptr;
+					cached = true;
+				}				
+			}
+			else
 			{
-				cInstr = *ppTarget;
-				cached = true;
+				operandError("Op(Spec)Constant", "Use \'ImportMissingConstants\'.");
+				reported = true;
 			}
-			else if (lib->isSpecOrConstant())
+		}
+		else if (lib->isType())
+		{
+			if (const Type* t = lib->getType(); t != nullptr && (_options & LinkerOptionBits::ImportMissingTypes))
 			{
-				if ( _options & LinkerOptionBits::ImportMissingConstants )
-				{
-					if ( const Constant* c = lib->getConstant(); c != nullptr )
-					{
-						cInstr = addTypeOrConstants([&]() { return module->addConstant(*c); }, *module, _options);
-					}
-					else // fallback to generic transfer for spec constants
-					{
-						cInstr = module->addConstantInstr();
-						if ( transferInstruction(lib, cInstr, _cache, _options) == false ) return false;
-						cached = true;
-					}				
-				}
-				else
-				{
-					operandError("Op(Spec)Constant", "Use \'ImportMissingConstants\'.");
-					reported = true;
-				}
+				cInstr = addTypeOrConstants([&]() { return module->addType(*t); }, *module, _options);
 			}
-			else if (lib->isType())
+			else
 			{
-				if (const Type* t = lib->getType(); t != nullptr && (_options & LinkerOptionBits::ImportMissingTypes))
-				{
-					cInstr = addTypeOrConstants([&]() { return module->addType(*t); }, *module, _options);
-				}
-				else
-				{
-					operandError("OpType", "Use \'ImportMissingTypes\'.");
-					reported = true;
-				}
+				operandError("OpType", "Use \'ImportMissingTypes\'.");
+				reported = true;
 			}
-			else if(*lib == spv::Op::OpVariable)
+		}
+		else if(*lib == spv::Op::OpVariable)
+		{
+			if(lib->getStorageClass() != spv::StorageClass::Function && (_options & LinkerOptionBits::ImportReferencedVariables))
 			{
-				if(lib->getStorageClass() != spv::StorageClass::Function && (_options & LinkerOptionBits::ImportReferencedVariables))
-				{
-					cInstr = module->addGlobalVariableInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
-					reported = true;
-				}	
+				cInstr = module->addGlobalVariableInstr();
+				if (transferInstruction(lib, cInstr, _cache, _options) == false) return nullptr;
+				cached = true;
 			}
-			else if (*lib == spv::Op::OpString)
+			else
 			{
-				if (_options & LinkerOptionBits::ImportReferencedStrings)
-				{
-					cInstr = module->addSourceStringInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpString", "Use \'ImportReferencedStrings\'.");
-					reported = true;
-				}
+				operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
+				reported = true;
+			}	
+		}
+		else if (*lib == spv::Op::OpString)
+		{
+			if (_options & LinkerOptionBits::ImportReferencedStrings)
+			{
+				cInstr = module->addSourceStringInstr();
+				if (transferInstruction(lib, cInstr, _cache, _options) == false) return nullptr;
+				cached = true;
 			}
-			else if (*lib == spv::Op::OpUndef)
+			else
 			{
-				if (_options & LinkerOptionBits::ImportMissingConstants)
-				{
-					cInstr = module->addUndefInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpUndef", "Use \'ImportMissingConstants\'.");
-					reported = true;
-				}
+				operandError("OpString", "Use \'ImportReferencedStrings\'.");
+				reported = true;
+			}
+		}
+		else if (*lib == spv::Op::OpUndef)
+		{
+			if (_options & LinkerOptionBits::ImportMissingConstants)
+			{
+				cInstr = module->addUndefInstr();
+				if (transferInstruction(lib, cInstr, _cache, _options) == false) return nullptr;
+				cached = true;
 			}
-			else if (*lib == spv::Op::OpFunction)
+			else
 			{
-				operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
+				operandError("OpUndef", "Use \'ImportMissingConstants\'.");
 				reported = true;
 			}
-			else if (*lib == spv::Op::OpExtInstImport)
+		}
+		else if (*lib == spv::Op::OpFunction)
+		{
+			operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
+			reported = true;
+		}
+		else if (*lib == spv::Op::OpExtInstImport)
+		{
+			if (_options & LinkerOptionBits::ImportMissingExtensionSets)
 			{
-				if (_options & LinkerOptionBits::ImportMissingExtensionSets)
+				for (const auto& [name, instr] : lib->getModule()->getExtInstrImports())
 				{
-					for (const auto& [name, instr] : lib->getModule()->getExtInstrImports())
+					if (&instr == lib) // this is the extension we are looking for
 					{
-						if (&instr == lib) // this is the extension we are looking for
-						{
-							cInstr = module->addExtensionInstructionImport(name.c_str()); // unique add / lookup
-							break;
-						}
+						cInstr = module->addExtensionInstructionImport(name.c_str()); // unique add / lookup
+						break;
 					}
 				}
-				else
-				{
-					operandError("OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
-					reported = true;
-				}
 			}
+			else
+			{
+				operandError("OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
+				reported = true;
+			}
+		}
 
-			if (cInstr != nullptr)
+		if (cInstr != nullptr)
+		{
+			if (cached == false)
 			{
-				if (cached == false)
+				_cache.emplaceUnique(lib, cInstr);
+				cacheOperands(lib, cInstr, _cache);
+				if (_options & LinkerOptionBits::AssignResultIDs)
 				{
-					_cache.emplaceUnique(lib, cInstr);
-					cacheOperands(lib, cInstr, _cache);
-					if (_options & LinkerOptionBits::AssignResultIDs)
-					{
-						cInstr->assignResultId(false);
-					}
-
-					printInstruction(_options, lib, " -> ", cInstr);				
+					cInstr->assignResultId(false);
 				}
 
-				_pTarget->addOperand(cInstr);
-				return true;
+				printInstruction(_options, lib, " -> ", cInstr);				
 			}
 
-			if (reported == false)
+			return cInstr;
+		}
+
+		if (reported == false)
+		{
+			operandError();
+		}
+
+		return nullptr;
+	}
+
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		if (Instruction** ppTarget = _cache[_pLibInstr]; ppTarget != nullptr && *ppTarget != _pTarget)
+		{
+			return true;
+		}
+
+		Module* module = _pTarget->getModule();
+		if (module == nullptr) { return false; }
+
+		auto error = [module](auto&& ... args) {module->logError(args...); };
+
+		// instruction parent must be be set before calling this function
+		_pTarget->setOperation(_pLibInstr->getOperation());
+
+		auto lookupOperand = [&](const Instruction* lib) -> bool
+		{
+			if (Instruction* cInstr = importOperand(lib, _pLibInstr, module, _cache, _options); cInstr != nullptr)
 			{
-				operandError();
+				_pTarget->addOperand(cInstr);
+				return true;
 			}
 
 			return false;
@@ -420,7 +443,7 @@ namespace
 			}
 			else
 			{
-				error("[%s] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", getInstrName(_pLibInstr, ""), getSymbolName(_pLibInstr));
+				error("[%s] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", getInstrName(_options, _pLibInstr, ""), getSymbolName(_pLibInstr));
 				return false;
 			}
 		}
-- 
2.43.0


From 9bbee1f404070bf6c827aee2c1257bdc7561b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 082/117] fix: LinkerHelper::import lost the initializer of an
 exported variable

---
 common/source/LinkerHelper.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index ce44ca1..b22ea2a 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -613,6 +613,17 @@ namespace
 			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
 			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
 			cacheOperands(_libSymbol, _consumerSymbol, _cache);
+
+			// variables with Import linkage have no initializer, it comes with the definition
+			if (auto init = _libSymbol->getFirstActualOperand().next(); init != nullptr && init->isInstruction())
+			{
+				if (auto cit = _consumerSymbol->getFirstActualOperand().next(); cit == nullptr)
+				{
+					Instruction* cInit = importOperand(init->getInstruction(), _libSymbol, &_consumer, _cache, _options);
+					if (cInit == nullptr) return false;
+					_consumerSymbol->addOperand(cInit);
+				}
+			}
 		}
 		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
 		{
-- 
2.43.0


From 84beb1cb62c70d17b2647b31c04f7223184201bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 083/117] fix: printInstruction lost the parameters of mask
 operands and printed masks twice

---
 common/source/ModulePrinter.cpp | 54 +++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 01e0d4e..ae71661 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -324,26 +324,56 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
 		{
-			if (auto* params = _grammar.getOperandParameters(info.kind, it->getLiteral()); params != nullptr)
-			{
-				auto pit = params->begin();
-				auto pend = params->end();
+			const unsigned int value = it->getLiteral();
+			++it;
 
-				for (++it; it != end && pit != pend; ++pit)
+			auto printParameters = [&](unsigned int _value) -> bool
+			{
+				if (auto* params = _grammar.getOperandParameters(info.kind, _value); params != nullptr)
 				{
-					if (pit->kind == Grammar::OperandKind::LiteralString)
+					for (const Grammar::Operand& param : *params)
 					{
-						_printer << " \"";
-						it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
-						_printer << "\"";
+						if (it == end)
+						{
+							return false; // parameter is missing
+						}
+
+						if (param.kind == Grammar::OperandKind::LiteralString)
+						{
+							_printer << " \"";
+							it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
+							_printer << "\"";
 
-						continue;
+							continue;
+						}
+
+						success &= printOperand(_instr, *it, param, _grammar, _printer, _options);
+						++it;
 					}
+				}
+				return true;
+			};
+
+			bool complete = true;
 
-					success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
-					++it;
+			if (info.category == Grammar::OperandCategory::BitEnum)
+			{
+				// parameters of a mask follow in the order of its bits, lowest first
+				for (unsigned int bit = 1u; bit != 0u && complete; bit <<= 1u)
+				{
+					complete = (value & bit) == 0u || printParameters(bit);
 				}
 			}
+			else
+			{
+				complete = printParameters(value);
+			}
+
+			if (complete == false)
+			{
+				_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+				return false; // invalid instruction
+			}
 		}
 		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
 		{
-- 
2.43.0


From 85ee2136e1c019fff382590d9f01488752b492f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 084/117] fix: printInstruction failed for OpSpecConstantOp
 without PrintOptionsBits::ResultId

---
 common/source/ModulePrinter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index ae71661..9277094 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -319,7 +319,9 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 			}
 
 			_printer << " [";
-			success &= printInstruction(constInstr, _grammar, _printer, _options ^ PrintOptionsBits::ResultId, nullptr);
+			// has no result of its own
+			const PrintOptions options = (_options & PrintOptionsBits::ResultId) ? _options ^ PrintOptionsBits::ResultId : _options;
+			success &= printInstruction(constInstr, _grammar, _printer, options, nullptr);
 			_printer << "]";
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
-- 
2.43.0


From ae976f6b99aab5917781982fb43194523f06a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 085/117] fix: printInstruction printed only the first word of
 64 bit constants

---
 common/source/ModulePrinter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 9277094..1b5a808 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -176,6 +176,19 @@ namespace
 				}
 			}
 
+			if (_info.kind == Grammar::OperandKind::LiteralContextDependentNumber) // the value can consist of several words
+			{
+				for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+				{
+					if (&*it != &*_instr.getFirstActualOperand())
+					{
+						_printer << " ";
+					}
+					_printer.append(it->getLiteral().value, colors.literal, colors.defaultText);
+				}
+				return true;
+			}
+
 			//fallback
 			_printer.append(op.literal.value, colors.literal, colors.defaultText);
 			return true;
@@ -377,6 +390,10 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 				return false; // invalid instruction
 			}
 		}
+		else if (info.kind == Grammar::OperandKind::LiteralContextDependentNumber)
+		{
+			it = end; // all words have been printed
+		}
 		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
 		{
 			while(++it != end)
-- 
2.43.0


From c2dc21e4feda09003b38df47df93f5e13b9a612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 086/117] fix: printInstruction dereferenced null for
 operations the grammar does not know

---
 common/source/ModulePrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 1b5a808..8ad8aa4 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -226,6 +226,12 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 	auto* instrInfo = _grammar.getInfo(static_cast<unsigned int>(_instr.getOperation()));
 	const auto& colors = _printer.getColorScheme();
 
+	if (instrInfo == nullptr)
+	{
+		_printer.append("UNKNOWN-OPERATION", colors.error, colors.defaultText);
+		return false; // invalid instruction
+	}
+
 	if (_instr.hasResult() && ((_options & PrintOptionsBits::InstructionName) || (_options & PrintOptionsBits::ResultId)))
 	{
 		if (const char* name = _instr.getName(); (_options & PrintOptionsBits::InstructionName) && name != nullptr && stringLength(name) > 1)
-- 
2.43.0


From 7a1357bb32db6d8112012eb63642eee87ee6b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 087/117] fix: printInstruction dropped operands the grammar
 does not know of

---
 common/source/ModulePrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 8ad8aa4..9ff2e84 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -413,6 +413,12 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 		}
 	}
 
+	if (it != end) // operands the grammar does not know
+	{
+		_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+		return false; // invalid instruction
+	}
+
 	return success;
 }
 
-- 
2.43.0


From c50ec3d6fccdaa68d7387ca1ac16d7acb3c19719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 088/117] fix: getVariablesWithDecoration did not find
 decorations without literal

---
 common/include/common/ReflectionHelperTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index db31638..6a3e59e 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -24,11 +24,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 			++it;
 		}
 
-		if (match && it.next() != nullptr)
+		if (match)
 		{
 			if (_pValue != nullptr)
 			{
-				if (*_pValue == it.next()->getLiteral())
+				if (it.next() != nullptr && *_pValue == it.next()->getLiteral())
 				{
 					_func(target->getInstruction());
 				}
-- 
2.43.0


From f703ff4f0cd34506cc7bf7431c780b96989ed9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 089/117] fix: getDecorations dereferenced null for
 OpDecorationGroup

---
 common/include/common/ReflectionHelperTemplate.inl | 4 ++--
 common/source/ReflectionHelper.cpp                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index 6a3e59e..eadc50a 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -49,7 +49,7 @@ void spvgentwo::ReflectionHelper::getDecorationsFunc(const Instruction* _pTarget
 
 	for (Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&decoration);
 		}
@@ -64,7 +64,7 @@ void spvgentwo::ReflectionHelper::getNamesFunc(const Instruction* _pTarget, Func
 
 	for (Instruction& name : _pTarget->getModule()->getNames())
 	{
-		if (*name.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = name.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&name);
 		}
diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 0be9a01..e4a8bcc 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -67,7 +67,7 @@ void spvgentwo::ReflectionHelper::getDecorations(const Instruction* _pTarget, Li
 
 	for(Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_outDecorations.emplace_back(&decoration);
 		}
-- 
2.43.0


From 285e2e4f4262264ba1ffb2ea2f1c919806ccf436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 090/117] fix: getSpvDecorationAndLiteralFromDecoration refused
 OpMemberDecorate

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index e4a8bcc..e2e30f2 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -97,7 +97,7 @@ spvgentwo::spv::Decoration spvgentwo::ReflectionHelper::getSpvDecorationKindFrom
 
 bool spvgentwo::ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(const Instruction* _pInDecoration, spv::Decoration& _outDecoration, unsigned int& _outValue)
 {
-	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration == spv::Op::OpMemberDecorate))
+	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration != spv::Op::OpMemberDecorate))
 	{
 		return false;
 	}
-- 
2.43.0


From c56df51d8fe3f40106548780bc4fbb10b14ee51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 091/117] fix: getLocalSize dereferenced null for constants
 without literal

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index e2e30f2..fc3dd9b 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -21,7 +21,7 @@ bool spvgentwo::ReflectionHelper::getLocalSize(const Module& _module, unsigned i
 			{
 				auto getValue = [](const Instruction* instr) -> unsigned int
 				{
-					if (instr == nullptr || instr->isSpecOrConstant() == false)
+					if (instr == nullptr || (*instr != spv::Op::OpConstant && *instr != spv::Op::OpSpecConstant))
 						return 0u;
 
 					if(auto it = instr->getFirstActualOperand(); it->isLiteral() )
-- 
2.43.0


From 90950fc2aaf68d5d47ba97b8c557224084b089d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 092/117] fix: getShaderStageFromExecutionModel took Max for
 Vertex and did not know TaskEXT and MeshEXT

---
 common/source/VulkanInterop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 6aea573..4f80f34 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -23,8 +23,10 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
 		return ShaderStageFlagBits::VK_SHADER_STAGE_COMPUTE_BIT;
 	//case spv::ExecutionModel::Kernel: OpenCL
 	case spv::ExecutionModel::TaskNV:
+	case spv::ExecutionModel::TaskEXT:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_TASK_BIT_NV;
 	case spv::ExecutionModel::MeshNV:
+	case spv::ExecutionModel::MeshEXT:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_MESH_BIT_NV;
 	case spv::ExecutionModel::RayGenerationKHR:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_RAYGEN_BIT_KHR;
@@ -38,8 +40,6 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
 		return ShaderStageFlagBits::VK_SHADER_STAGE_MISS_BIT_KHR;
 	case spv::ExecutionModel::CallableKHR:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_CALLABLE_BIT_KHR;
-	case spv::ExecutionModel::Max:
-		return ShaderStageFlagBits::VK_SHADER_STAGE_VERTEX_BIT;
 	default:
 		break;
 	}
-- 
2.43.0


From 9954c75fc953ecc4008097fadb6020c6857b765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 093/117] fix: getDescriptorTypeFromVariable took arrays of
 images and samplers for buffers

---
 common/source/VulkanInterop.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 4f80f34..e0950fd 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -5,6 +5,24 @@
 #include "spvgentwo/Instruction.h"
 #include "spvgentwo/Type.h"
 
+namespace
+{
+	// type the variable points to, type of the elements for arrays of descriptors
+	const spvgentwo::Type* getDescriptorType(const spvgentwo::Instruction& _variable)
+	{
+		const spvgentwo::Type* type = _variable.getType();
+
+		if (type == nullptr || type->isPointer() == false || type->getSubTypes().empty())
+		{
+			return nullptr;
+		}
+
+		for (type = &type->front(); (type->isArray() || type->isRuntimeArray()) && type->getSubTypes().empty() == false; type = &type->front()) {}
+
+		return type;
+	}
+} // !anonymous
+
 spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionModel(spv::ExecutionModel _model)
 {
 	switch (_model)
@@ -53,14 +71,14 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
 	}
 
-	const Type* ptr = _variable.getType();
+	const Type* descriptor = getDescriptorType(_variable);
 
-	if (ptr == nullptr || *ptr != spv::Op::OpTypePointer || ptr->getSubTypes().empty())
+	if (descriptor == nullptr)
 	{
 		return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
 	}
 
-	const Type& type = ptr->front();
+	const Type& type = *descriptor;
 
 	const spv::StorageClass storage = _variable.getStorageClass();
 
-- 
2.43.0


From 354aec22d08e016f462117f95816c8bd242ac010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 094/117] fix: getDescriptorTypeFromVariable never found image
 and sampler on the same binding

---
 common/source/VulkanInterop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index e0950fd..dc10786 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -107,7 +107,7 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 				}
 
 				// we found another variable in the same set
-				if (const Type* otherType = _pVar->getType(); _pVar != &_variable && otherType != nullptr && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
+				if (const Type* otherType = getDescriptorType(*_pVar); _pVar != &_variable && otherType != nullptr && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
 				{
 					// check for [sampler & image] or [image & sampler] variable combo
 					if (((otherType->getType() == spv::Op::OpTypeSampler) && (type.getType() == spv::Op::OpTypeSampledImage || type.getType() == spv::Op::OpTypeImage)) ||
-- 
2.43.0


From d69f3ab210fad9c395f8c80d2f89e162e8fd2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 095/117] fix: getDescriptorTypeFromVariable took every sampled
 image for a texel buffer

---
 common/source/VulkanInterop.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index dc10786..fcbd08b 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -135,12 +135,11 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	{
 	case spv::Op::OpTypeSampler:					return DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER;
 	case spv::Op::OpTypeSampledImage:
-		switch (type.front().getImageSamplerAccess())
+		if (type.front().getImageDimension() == spv::Dim::Buffer)
 		{
-		case SamplerImageAccess::Sampled:			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
-		case SamplerImageAccess::Storage:			return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
-		default:									return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
-		}		
+			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
+		}
+		return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
 	case spv::Op::OpTypeImage:
 	{
 		switch (type.getImageDimension())
-- 
2.43.0


From 403013bfc7848690881c870fe0cc61c6e52bae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 096/117] fix: getDescriptorTypeFromVariable took BufferBlock
 storage buffers for uniform buffers

---
 common/source/VulkanInterop.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index fcbd08b..c337c6a 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -21,6 +21,32 @@ namespace
 
 		return type;
 	}
+
+	// storage buffers are Uniform variables of a BufferBlock before SPIR-V 1.3
+	bool isBufferBlock(const spvgentwo::Instruction& _variable)
+	{
+		using namespace spvgentwo;
+
+		const Instruction* type = _variable.getResultTypeInstr();
+
+		while (type != nullptr && (*type == spv::Op::OpTypePointer || *type == spv::Op::OpTypeArray || *type == spv::Op::OpTypeRuntimeArray))
+		{
+			auto it = type->getFirstActualOperand();
+			if (*type == spv::Op::OpTypePointer)
+			{
+				++it; // skip storage class
+			}
+			type = it != nullptr ? it->getInstruction() : nullptr;
+		}
+
+		bool found = false;
+		ReflectionHelper::getDecorationsFunc(type, [&found](const Instruction* _pDecoration)
+		{
+			found |= *_pDecoration == spv::Op::OpDecorate && ReflectionHelper::getSpvDecorationKindFromDecoration(_pDecoration) == spv::Decoration::BufferBlock;
+		});
+
+		return found;
+	}
 } // !anonymous
 
 spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionModel(spv::ExecutionModel _model)
@@ -168,7 +194,9 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	default: // assume this is a buffer
 		switch (storage)
 		{
-		case spv::StorageClass::Uniform:			[[fallthrough]];
+		case spv::StorageClass::Uniform:
+			if (isBufferBlock(_variable))			return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
+			[[fallthrough]];
 		case spv::StorageClass::UniformConstant:	return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
 		case spv::StorageClass::StorageBuffer:		return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
 		default:
-- 
2.43.0


From 0663fecf59fa2817001274058e5c23ef34868000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 097/117] fix: reflector knew decoration Restrict by a wrong
 name

---
 refl/source/refl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 39138ca..4014067 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -36,7 +36,7 @@ const HeapHashMap<spv::Decoration, const char*> DecorationNames(
 	spv::Decoration::Centroid, (const char*)"Centroid",
 	spv::Decoration::Sample, (const char*)"Sample",
 	spv::Decoration::Invariant, (const char*)"Invariant",
-	spv::Decoration::Restrict, (const char*)"Restrict`",
+	spv::Decoration::Restrict, (const char*)"Restrict",
 	spv::Decoration::Aliased, (const char*)"Aliased",
 	spv::Decoration::Volatile, (const char*)"Volatile",
 	spv::Decoration::Constant, (const char*)"Constant",
-- 
2.43.0


From 5b1b828d0b144d6f071530d578fd70493d8bbfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 098/117] fix: getOperandByName took any prefix for the name

---
 common/source/GrammarHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 8fa5084..426adf6 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -20,7 +20,7 @@ namespace
 			++_pRight;
 		}
 
-		return true;
+		return *_pLeft == *_pRight;
 	}
 }
 
-- 
2.43.0


From 719eebcdedc465546248c8ae06c3470cd2c140c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 099/117] fix: GrammarHelper read behind the operands of the
 grammar

---
 common/source/GrammarHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 426adf6..9475062 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -30,7 +30,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind
 	{
 		auto opIt = info->operands.begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		for (auto it = _pInstruction->begin(); it != nullptr && opIt != info->operands.end(); )
 		{
 			if (opIt->kind == _kind)
 			{
@@ -51,7 +51,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(cons
 	{
 		auto opIt = info->operands.begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		for (auto it = _pInstruction->begin(); it != nullptr && opIt != info->operands.end(); )
 		{
 			if (stringCmp(_pName, opIt->name))
 			{
-- 
2.43.0


From 55a846a949dfc48e85a7c4e42b7419c68f0926d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 100/117] fix: GrammarHelper took words of a string for the
 operands behind it

---
 common/source/GrammarHelper.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 9475062..0d837cc 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -22,6 +22,22 @@ namespace
 
 		return *_pLeft == *_pRight;
 	}
+
+	// move behind all words of the operand
+	void nextOperand(spvgentwo::Instruction::Iterator& _it, spvgentwo::Grammar::OperandKind _kind)
+	{
+		if (_kind != spvgentwo::Grammar::OperandKind::LiteralString)
+		{
+			++_it;
+			return;
+		}
+
+		for (bool terminated = false; terminated == false && _it != nullptr; ++_it)
+		{
+			const unsigned int word = _it->getLiteral();
+			terminated = (word & 0xFFu) == 0u || (word & 0xFF00u) == 0u || (word & 0xFF0000u) == 0u || (word & 0xFF000000u) == 0u;
+		}
+	}
 }
 
 spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind(const Instruction* _pInstruction, const Grammar& _gram, Grammar::OperandKind _kind, Grammar::Extension _ext)
@@ -37,7 +53,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind
 				return it;
 			}
 
-			++it;
+			nextOperand(it, opIt->kind);
 			++opIt;
 		}
 	}
@@ -58,7 +74,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(cons
 				return it;
 			}
 
-			++it;
+			nextOperand(it, opIt->kind);
 			++opIt;
 		}
 	}
-- 
2.43.0


From 2c44f1b6c6227e94eb0e1f5678c2c22f74a0b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:48 +0000
Subject: [PATCH 101/117] fix: modules with two entry points of one function
 were refused

---
 lib/source/Module.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 6f648f5..8ae06a9 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1098,6 +1098,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 	for (EntryPoint& f : m_EntryPoints)
 	{
+		if (f.getFunction()->getOperation() == spv::Op::OpNop) // function was read for a previous OpEntryPoint
+			continue;
+
 		if (updateFunctionTypes(f) == false)
 			success = false;
 	}
-- 
2.43.0


From 3c59aa156717e21fd0915b369a2819d09f4ac300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 102/117] fix: Graph move assignment had no return value

---
 common/include/common/Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index da320b0..b8b29e6 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -65,6 +65,7 @@ namespace spvgentwo
 	inline Graph<N, E>& Graph<N, E>::operator=(Graph<N, E>&& _other) noexcept
 	{
 		m_nodes = stdrep::move(_other.m_nodes);
+		return *this;
 	}
 
 	template<class N, class E>
-- 
2.43.0


From 5c277e0629d1e2558bebbbb87ca84cad68678d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 103/117] fix: Graph::back returned the first node

---
 common/include/common/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index b8b29e6..af0f0fd 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -41,8 +41,8 @@ namespace spvgentwo
 		NodeType& front() { return m_nodes.front(); }
 		const NodeType& front() const { return m_nodes.front(); }
 
-		NodeType& back() { return m_nodes.front(); }
-		const NodeType& back() const { return m_nodes.front(); }
+		NodeType& back() { return m_nodes.back(); }
+		const NodeType& back() const { return m_nodes.back(); }
 
 	protected:
 
-- 
2.43.0


From 69e3e8700f56c401b30e9e1bc64bd0103e5dea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:43 +0000
Subject: [PATCH 104/117] fix: Node move assignment did not compile

---
 common/include/common/Node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b9a64b3..4dd40ef 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -79,7 +79,7 @@ namespace spvgentwo
 	template<class N, class E>
 	inline Node<N, E>& Node<N, E>::operator=(Node<N, E>&& _other) noexcept
 	{
-		if (this == &_other) return this;
+		if (this == &_other) return *this;
 
 		m_data = stdrep::move(_other.m_data);
 		m_inputs = stdrep::move(_other.m_inputs);
-- 
2.43.0


From 057908dbd9ce3e026e6bf1ddb690400042ccc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 105/117] fix: ExprGraph did not compile for edge lists and
 explicit orders

---
 common/include/common/ExprGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/include/common/ExprGraph.h b/common/include/common/ExprGraph.h
index 6d2ef79..8f3e41c 100644
--- a/common/include/common/ExprGraph.h
+++ b/common/include/common/ExprGraph.h
@@ -56,7 +56,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				expr(_pExitNode->inputs(), _pExitNode->output());			
+				expr(_pExitNode->inputs(), _pExitNode->outputs());			
 			}
 		}
 	}
@@ -76,13 +76,13 @@ namespace spvgentwo
 
 			if constexpr (args == ExprArgs::FunctionPtrLists)
 			{
-				auto inputs = transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
-				auto outputs = transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto inputs = algo::transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto outputs = algo::transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
 				expr(inputs, outputs);
 			}
 			else
 			{
-				expr(node->inputs(), node->output());
+				expr(node->inputs(), node->outputs());
 			}
 		}
 
-- 
2.43.0


From 1c7e03308ba3d5bd3eedc18db0396cd437fe8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:49 +0000
Subject: [PATCH 106/117] fix: connect lost the data of one edge when it was
 moved in

---
 common/include/common/Node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index 4dd40ef..ed22ae4 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -123,7 +123,7 @@ namespace spvgentwo
 	template<class ...EdgeArgs>
 	inline void Node<N, E>::connect(Node* _pTarget, EdgeArgs&& ..._args)
 	{
-		m_outputs.emplace_back(_pTarget, stdrep::forward<EdgeArgs>(_args)...);
+		m_outputs.emplace_back(_pTarget, _args...); // copy, the arguments are needed for both edges
 		_pTarget->m_inputs.emplace_back(this, stdrep::forward<EdgeArgs>(_args)...);
 	}
 
-- 
2.43.0


From b741b8c6757ed2b3408c53657557130905c9c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 107/117] fix: ExternalMemoryAllocator left its buffer after a
 failed allocation

---
 common/source/ExternalMemoryAllocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/ExternalMemoryAllocator.cpp b/common/source/ExternalMemoryAllocator.cpp
index 362e370..2107851 100644
--- a/common/source/ExternalMemoryAllocator.cpp
+++ b/common/source/ExternalMemoryAllocator.cpp
@@ -4,7 +4,10 @@ void* spvgentwo::ExternalMemoryAllocator::allocate(sgt_size_t _bytes, unsigned i
 {
 	const auto capacity = static_cast<sgt_size_t>(static_cast<const char*>(m_pEnd) - static_cast<const char*>(m_pCurrent));
 	void* ptr = alignPowerOf2(_aligment, _bytes, m_pCurrent, capacity);
-	m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	if (ptr != nullptr) // otherwise m_pCurrent is unchanged
+	{
+		m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	}
 	return ptr;
 }
 
-- 
2.43.0


From 4564c93c0aa315c1ad461ec73b246d2a5b9c929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 108/117] fix: assigning an empty Callable or a Callable to
 itself

---
 common/include/common/Callable.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6f8336d..5f864e8 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -186,14 +186,18 @@ namespace spvgentwo
 
 		Callable& operator=(const Callable& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
-			m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			m_pCallable = _other.m_pCallable != nullptr ? _other.m_pCallable->copy(m_pAllocator) : nullptr;
 			return *this;
 		}
 
 		Callable& operator=(Callable&& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
 			m_pCallable = _other.m_pCallable;
-- 
2.43.0


From 1f053b587d59464254ea80529a863edf271d4795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 109/117] fix: Callable gave its memory back with the size of
 its base class

---
 common/include/common/Callable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 5f864e8..cd01d3b 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -88,6 +88,7 @@ namespace spvgentwo
 			virtual ~ICallable() = default;
 			virtual ReturnType invoke(Args...) = 0;
 			virtual ICallable* copy(IAllocator* _pAllocator) const = 0;
+			virtual void destroy(IAllocator* _pAllocator) = 0;
 		};
 
 		template <typename Functor>
@@ -109,6 +110,11 @@ namespace spvgentwo
 				return _pAllocator->construct<CallableImpl<Functor>>(m_func);
 			}
 
+			void destroy(IAllocator* _pAllocator) final
+			{
+				_pAllocator->destruct(this); // deallocates the size that was allocated
+			}
+
 		private:
 			Functor m_func;
 		};
@@ -217,7 +223,7 @@ namespace spvgentwo
 		{
 			if (m_pAllocator != nullptr && m_pCallable != nullptr)
 			{
-				m_pAllocator->destruct(m_pCallable);
+				m_pCallable->destroy(m_pAllocator);
 				m_pCallable = nullptr;
 			}
 		}
-- 
2.43.0


From b8d8c3338824b0f6bf92ffe04a58ccd357fc59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 110/117] fix: make_memeber_func and make_callable with a
 member function did not compile

---
 common/include/common/Callable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index cd01d3b..fe6e54a 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -37,7 +37,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_memeber_func(Obj* _obj, ReturnType(Obj::* _func)(Args...))
 	{
-		return MemberFunc<Obj, ReturnType, Args...> {_obj, _func};
+		return MemberFunc<Obj, ReturnType, Args...> {_func, _obj};
 	}
 
 	template <typename ReturnType, typename... Args>
@@ -74,7 +74,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_variadic_memeber_func(Obj* _obj, ReturnType(Obj::* _func)(Args..., ...))
 	{
-		return VariadicMemberFunc<Obj, ReturnType, Args...> {_obj, _func};
+		return VariadicMemberFunc<Obj, ReturnType, Args...> {_func, _obj};
 	}
 
 	template <typename T>
@@ -286,7 +286,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_callable(spvgentwo::IAllocator* _pAllocator, Obj* _obj, ReturnType(Obj::*_func)(Args...))
 	{
-		return Callable<ReturnType(Args...)>(_pAllocator, _func, _obj);
+		return Callable<ReturnType(Args...)>(_pAllocator, _obj, _func);
 	}
 
 	// variadic member function
-- 
2.43.0


From b1f70710e1d26cedde0fec6d804c725e2dcd4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 111/117] fix: moving a Module lost its generator

---
 lib/source/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 8ae06a9..ea0cd98 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -59,6 +59,7 @@ spvgentwo::Module::Module(Module&& _other) noexcept:
 	m_pLogger(_other.m_pLogger),
 	m_pTypeInferenceAndVailation(_other.m_pTypeInferenceAndVailation),
 	m_spvVersion(_other.m_spvVersion),
+	m_spvGenerator(_other.m_spvGenerator),
 	m_spvBound(_other.m_spvBound),
 	m_spvSchema(_other.m_spvSchema),
 	m_Functions(stdrep::move(_other.m_Functions)),
@@ -94,6 +95,7 @@ spvgentwo::Module& spvgentwo::Module::operator=(Module&& _other) noexcept
 	m_pLogger = _other.m_pLogger;
 	m_pTypeInferenceAndVailation = _other.m_pTypeInferenceAndVailation;
 	m_spvVersion = _other.m_spvVersion;
+	m_spvGenerator = _other.m_spvGenerator;
 	m_spvBound = _other.m_spvBound;
 	m_spvSchema = _other.m_spvSchema;
 	m_Functions = stdrep::move(_other.m_Functions);
-- 
2.43.0


From 700dfca6ccabd40f367084dd9c06136d2ed432ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 112/117] fix: parameters of a moved Function still named the
 old one as their parent

---
 lib/include/spvgentwo/Instruction.h |  1 +
 lib/source/Function.cpp             | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 850af2b..7a381b0 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -18,6 +18,7 @@ namespace spvgentwo
 	class Instruction : public List<Operand>
 	{
 		friend class Module;
+		friend class Function;
 		friend class BasicBlock;
 
 	public:
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index b794f87..a605fe5 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -28,6 +28,11 @@ spvgentwo::Function::Function(Module* _pModule, Function&& _other) noexcept :
 	{
 		bb.m_pFunction = this;
 	}
+
+	for (Instruction& param : m_Parameters)
+	{
+		param.m_parent.pFunction = this;
+	}
 }
 
 spvgentwo::Function::~Function()
@@ -50,6 +55,11 @@ spvgentwo::Function& spvgentwo::Function::operator=(Function&& _other) noexcept
 	m_FunctionType = stdrep::move(_other.m_FunctionType);
 	m_Parameters = stdrep::move(_other.m_Parameters);
 
+	for (Instruction& param : m_Parameters)
+	{
+		param.m_parent.pFunction = this;
+	}
+
 	return *this;
 }
 
-- 
2.43.0


From 5331ee241f067a858f5621114b3439eecf219a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:20 +0000
Subject: [PATCH 113/117] fix: Module::reset did not restore the initial
 version

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index ea0cd98..c6f7819 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -173,7 +173,7 @@ spvgentwo::Module::~Module()
 
 void spvgentwo::Module::reset()
 {
-	m_spvVersion = spv::Version;
+	m_spvVersion = makeVersion(1u, 0u);
 	m_spvGenerator = GeneratorId;
 	m_spvBound = 0u;
 	m_spvSchema = 0u;
-- 
2.43.0


From f058bdc7c8c08acbf1cb85d2ea1dccd2b44d26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:00 +0000
Subject: [PATCH 114/117] fix: import called functions in the order of their
 calls, not of their addresses

---
 common/source/LinkerHelper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index b22ea2a..b938e2a 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -772,6 +772,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		// gather all functions called from all the iFuncs we want to import
 		HashMap <Function*, Function*> calledFuncs(pAllocator, static_cast<unsigned int>(_lib.getFunctions().size())); // lib Func -> consumer Function
+		List<Function*> calledFuncsOrder(pAllocator); // order of the calls, calledFuncs is ordered by address
 		for (const ImportSymbol& func : iFuncs)
 		{
 			Function* target = func.lib->getFunction();
@@ -800,6 +801,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 							{
 								// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
 								n.kv.value = &_consumer.addFunction();
+								calledFuncsOrder.emplace_back(callee);
 								cache.emplaceUnique(callee->getFunction(), assignId(n.kv.value->getFunction(), _options)); // OpFunction
 							}
 						}
@@ -809,8 +811,9 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 
 		// transfer functions from lib to consumer
-		for (auto& [lFunc, cFunc] : calledFuncs)
+		for (Function* lFunc : calledFuncsOrder)
 		{
+			Function* cFunc = *calledFuncs.get(lFunc);
 			{
 				String sig(pAllocator);
 				TypeHelper::getTypeName(lFunc->getFunctionType(), sig, lFunc->getFunction());
-- 
2.43.0


From 6b077e2832321245a81a1b7d3c6adefa91e45bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:14 +0000
Subject: [PATCH 115/117] fix: build without warnings when SPVGENTWO_LOGGING is
 off

---
 lib/include/spvgentwo/ModuleTemplate.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/ModuleTemplate.inl b/lib/include/spvgentwo/ModuleTemplate.inl
index 1433f62..4d89453 100644
--- a/lib/include/spvgentwo/ModuleTemplate.inl
+++ b/lib/include/spvgentwo/ModuleTemplate.inl
@@ -37,7 +37,7 @@ namespace spvgentwo
 	}
 
 	template<typename ...Args>
-	inline bool Module::log(bool _pred, const LogLevel _level, const char* _pFormat, Args ..._args) const
+	inline bool Module::log(bool _pred, [[maybe_unused]] const LogLevel _level, [[maybe_unused]] const char* _pFormat, [[maybe_unused]] Args ..._args) const
 	{
 #ifdef SPVGENTWO_LOGGING
 		if (m_pLogger != nullptr && _pred == false)
-- 
2.43.0


From 746d93c1523dafb14d8ef9861035532ab950e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:06 +0000
Subject: [PATCH 116/117] fix: print floating point constants with all their
 significant digits

---
 common/source/ModulePrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 9ff2e84..fdf589a 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -484,8 +484,8 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 	if (!printed && t.isU16())	printed = printConstData<unsigned short>(_constant, buf, "%u");
 	if (!printed && t.isU32())	printed = printConstData<unsigned int>(_constant, buf, "%u");
 	if (!printed && t.isU64())	printed = printConstData<unsigned long long>(_constant, buf, "%llu");
-	if (!printed && t.isF32())	printed = printConstData<float>(_constant, buf, "%f");
-	if (!printed && t.isF64())	printed = printConstData<double>(_constant, buf, "%f");
+	if (!printed && t.isF32())	printed = printConstData<float>(_constant, buf, "%.9g");
+	if (!printed && t.isF64())	printed = printConstData<double>(_constant, buf, "%.17g");
 
 	if (printed)
 	{
-- 
2.43.0


From 78186c3fea083d3fbf864801bb2ffbafb41034d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:08 +0000
Subject: [PATCH 117/117] fix: a hash map without buckets is empty instead of
 dividing by zero

---
 lib/include/spvgentwo/HashMap.h | 48 +++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index f614c7b..d519968 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -51,7 +51,7 @@ namespace spvgentwo
 
 		// only enable overload of Key type differs from Hash64
 		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
-		Value* get(const T& _key) const { return get(m_pHashFunc(_key)); }
+		Value* get(const T& _key) const { return m_Buckets == 0u ? nullptr : get(m_pHashFunc(_key)); }
 
 		// retuns nullptr if not resident
 		Value* operator[](const Key& _key) const
@@ -62,7 +62,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				return get(m_pHashFunc(_key));
+				return m_Buckets == 0u ? nullptr : get(m_pHashFunc(_key));
 			}
 		}
 
@@ -70,7 +70,7 @@ namespace spvgentwo
 
 		// only enable overload of Key type differs from Hash64
 		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
-		TRange getRange(const T& _key) const { return getRange(m_pHashFunc(_key)); }
+		TRange getRange(const T& _key) const { return m_Buckets == 0u ? TRange{ nullptr, nullptr } : getRange(m_pHashFunc(_key)); }
 
 		Iterator find(const Key& _key) const;
 
@@ -86,7 +86,7 @@ namespace spvgentwo
 
 		// only enable overload of Key type differs from Hash64
 		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
-		unsigned int count(const T& _key) const { return count(m_pHashFunc(_key)); }
+		unsigned int count(const T& _key) const { return m_Buckets == 0u ? 0u : count(m_pHashFunc(_key)); }
 
 		constexpr const Bucket& getBucket(const unsigned int _index) const { return m_pBuckets[_index]; }
 		constexpr unsigned int getBucketCount() const { return m_Buckets; }
@@ -116,10 +116,17 @@ namespace spvgentwo
 		if (m_pAllocator != nullptr)
 		{
 			m_pBuckets = static_cast<Bucket*>(m_pAllocator->allocate(m_Buckets * sizeof(Bucket), alignof(Bucket)));
-			for (auto i = 0u; i < m_Buckets; ++i)
-			{
-				new(m_pBuckets + i) Bucket(m_pAllocator);
-			}
+		}
+
+		// without storage there are no buckets
+		if (m_pBuckets == nullptr)
+		{
+			m_Buckets = 0u;
+		}
+
+		for (auto i = 0u; i < m_Buckets; ++i)
+		{
+			new(m_pBuckets + i) Bucket(m_pAllocator);
 		}
 	}
 
@@ -200,6 +207,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline Value* HashMap<Key, Value>::get(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return nullptr;
+		}
+
 		const auto index = _hash % m_Buckets;
 
 		for (Node& n : m_pBuckets[index])
@@ -214,6 +226,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::TRange HashMap<Key, Value>::getRange(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return { nullptr, nullptr };
+		}
+
 		const auto index = _hash % m_Buckets;
 		const Bucket& bucket = m_pBuckets[index];
 
@@ -253,6 +270,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline unsigned int HashMap<Key, Value>::eraseRange(const Key& _key)
 	{
+		if (m_Buckets == 0u)
+		{
+			return 0u;
+		}
+
 		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
@@ -289,6 +311,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline unsigned int HashMap<Key, Value>::count(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return 0u;
+		}
+
 		unsigned int keys = 0u;
 		const auto index = _hash % m_Buckets;
 
@@ -306,6 +333,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::Iterator HashMap<Key, Value>::find(const Key& _key) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return end();
+		}
+
 		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
-- 
2.43.0

