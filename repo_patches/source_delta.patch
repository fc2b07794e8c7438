From 21996db5070a27737a31e71c6e80a92d5be1c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 01/62] fix: wrap the torus at 80 columns and 25 rows

---
 src/InstructionPointer.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 892c58d..63831e7 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -55,16 +55,9 @@ void InstructionPointer::next(){
 		pos += delta;
 		const Field& field = runner.getField();
 		if(runner.getUniverse().topology() == TOPO_TORUS){
-			if(pos.get(0) > 80){
-				pos.set(0, 0);
-			}else if(pos.get(0) < 0){
-				pos.set(0, 79);
-			}
-			if(pos.get(1) > 25){
-				pos.set(1, 0);
-			}else if(pos.get(1) < 0){
-				pos.set(1, 24);
-			}
+			// The torus is 80 columns by 25 rows
+			pos.set(0, ((pos.get(0) % 80) + 80) % 80);
+			pos.set(1, ((pos.get(1) % 25) + 25) % 25);
 		}else{
 			if(!inField(field)){
 				delta.reverse();
-- 
2.43.0


From 4c975450cefded1e5daa70ea047e49372131238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 02/62] fix: keep the bounds of fungespace tight around its
 non-space cells

---
 src/Field.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..602b9d4 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -255,10 +255,16 @@ void Field::put(const Vector& p, inst_t v){
 	callObservers(p, v);
 	if(v == ' '){
 		auto find = field.find(p);
-		if(find != field.end()){
-			field.erase(find);
+		if(find == field.end()){
+			return;
 		}
-		for(size_t i = 0; i < p.size(); ++i){
+		field.erase(find);
+		for(size_t i = 0; i < maxs.size(); ++i){
+			if(field.empty()){
+				maxs[i] = 0;
+				mins[i] = 0;
+				continue;
+			}
 			if(maxs[i] == p[i]){
 				// scan for new max
 				dim_t max = std::numeric_limits<dim_t>::min() ;
@@ -281,11 +287,13 @@ void Field::put(const Vector& p, inst_t v){
 			}
 		}
 	}else{
-		for(size_t i = 0; i < p.size(); ++i){
-			if(maxs[i] < p[i]){
+		// The bounds cover all dimensions, even those p has no coordinate for
+		bool first = field.empty();
+		for(size_t i = 0; i < maxs.size(); ++i){
+			if(first || maxs[i] < p[i]){
 				maxs[i] = p[i];
 			}
-			if(mins[i] > p[i]){
+			if(first || mins[i] > p[i]){
 				mins[i] = p[i];
 			}
 		}
-- 
2.43.0


From 1d5c422f2e7c56684b7759607eb34db4aa916d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 03/62] fix: wrap an IP that moves away from the field it is
 outside of

---
 src/InstructionPointer.cpp       | 34 +++++++++++++++++++++++++++++---
 src/include/InstructionPointer.h |  1 +
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 63831e7..ca0acad 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -50,6 +50,24 @@ bool InstructionPointer::inField(const Field& field) const {
 	return true;
 }
 
+bool InstructionPointer::approaching(const Field& field) const {
+	bool closer = false;
+	for(size_t n = 0; n < runner.getUniverse().dimensions(); ++n){
+		if(pos.get(n) < field.min(n)){
+			if(delta.get(n) <= 0){
+				return false;
+			}
+			closer = true;
+		}else if(pos.get(n) > field.max(n)){
+			if(delta.get(n) >= 0){
+				return false;
+			}
+			closer = true;
+		}
+	}
+	return closer;
+}
+
 void InstructionPointer::next(){
 	if(!stopped){
 		pos += delta;
@@ -60,13 +78,23 @@ void InstructionPointer::next(){
 			pos.set(1, ((pos.get(1) % 25) + 25) % 25);
 		}else{
 			if(!inField(field)){
+				const Vector start(pos);
 				delta.reverse();
 				pos += delta;
-				while(inField(field)){
+				// The field may have shrunk and left the IP outside of it
+				while(!inField(field) && approaching(field)){
 					pos += delta;
 				}
-				delta.reverse();
-				pos += delta;
+				if(inField(field)){
+					while(inField(field)){
+						pos += delta;
+					}
+					delta.reverse();
+					pos += delta;
+				}else{
+					delta.reverse();
+					pos = start;
+				}
 			}
 		}
 	}
diff --git a/src/include/InstructionPointer.h b/src/include/InstructionPointer.h
index c4c0d44..505105f 100644
--- a/src/include/InstructionPointer.h
+++ b/src/include/InstructionPointer.h
@@ -139,6 +139,7 @@ class InstructionPointer {
 		Vector storage;
 		
 		bool inField(const Field& field) const;
+		bool approaching(const Field& field) const;
 };
 
 }
-- 
2.43.0


From 61c6225a4d16021222c2b0e539c74ffd41df9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 04/62] fix: output all 64 bits of an integer

---
 src/Unefunge93Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..e6a63c0 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -250,7 +250,7 @@ FungeError Unefunge93Strategy::instructionCharOut(){
 
 FungeError Unefunge93Strategy::instructionNumOut(){
 	stack_t x = stack.top().pop();
-	std::cout << static_cast<int>(x) << ' ';
+	std::cout << x << ' ';
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From c4754c295ff556fa9b5287f0202ec5686948e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 05/62] fix: fetch and store whole cells

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..955e135 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -296,13 +296,13 @@ FungeError Unefunge98Strategy::instructionExecute(){
 
 FungeError Unefunge98Strategy::instructionFetch(){
 	ip.next();
-	stack.top().push((int)ip.get());
+	stack.top().push(ip.get());
 	return ERROR_NONE;
 }
 
 FungeError Unefunge98Strategy::instructionStore(){
 	ip.next();
-	ip.put((char)(int)stack.top().pop());
+	ip.put(stack.top().pop());
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From c19db46e5d0b4d8c2216e142ff37535f70a61b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 06/62] fix: iterate zero times skips the next instruction,
 wherever it is

---
 src/Unefunge98Strategy.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 955e135..2e4e03d 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	inst_t c = field.get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -127,14 +127,15 @@ FungeError Unefunge98Strategy::instructionIterate(){
 			c = ip.get();
 		}
 	}
+	const stack_t k = stack.top().pop();
+	if(k == 0){
+		// Stay on the instruction, so that it is the one skipped
+		return ERROR_NONE;
+	}
 	ip.setPos(v);
-	int k = stack.top().pop();
-	for(int i = 0; i < k; i++){
+	for(stack_t i = 0; i < k; i++){
 		runner.execute(c);
 	}
-	if(k == 0){
-		ip.next();
-	}
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From a6f3f4fc730066f3d9df70e15112ac842a92f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 07/62] fix: do not look up cells that are no characters in
 isspace

---
 src/FungeStateString.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..8eb0988 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -18,6 +18,11 @@ FungeStateString::FungeStateString(FungeRunner& r) :
 	
 }
 
+static bool isSpace(inst_t i){
+	// isspace() is only defined for characters, and cells can be anything
+	return i >= 0 && i <= 0xFF && isspace(static_cast<int>(i));
+}
+
 void FungeStateString::escape(inst_t i){
 	stack_t code = i;
 	switch(i){
@@ -65,7 +70,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isSpace(i) || !isSpace(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From 7b52543ac3713b56a0db7bfc905219c44530b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 08/62] fix: division of the least integer by -1 crashes

---
 src/Unefunge93Strategy.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index e6a63c0..eeccb6f 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -123,6 +123,9 @@ FungeError Unefunge93Strategy::instructionRemainder(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		// b%a overflows for the least integer
+		stack.top().push(0);
 	}else{
 		stack.top().push(b%a);
 	}
@@ -155,6 +158,9 @@ FungeError Unefunge93Strategy::instructionDivide(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		// b/a overflows for the least integer
+		stack.top().push(static_cast<stack_t>(-static_cast<uint64_t>(b)));
 	}else{
 		stack.top().push(b/a);
 	}
-- 
2.43.0


From 406fbe998f223c97b6efbb872c6a7cded5091716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 09/62] fix: transfers between stacks overflow the call stack

---
 src/Unefunge98Strategy.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 2e4e03d..dba57e3 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -12,6 +12,7 @@
 #include <thread>
 #include <fstream>
 #include <ctime>
+#include <vector>
 
 namespace Funge {
 
@@ -186,7 +187,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
 	stack.push();
 	if(n > 0){
-		stack_t trans[n];
+		std::vector<stack_t> trans(n);
 		for(stack_t i = 0; i < n; ++i){
 			trans[i] = stack.second().pop();
 		}
@@ -215,7 +216,7 @@ FungeError Unefunge98Strategy::instructionEnd(){
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
 		if(n > 0){
-			stack_t trans[n];
+			std::vector<stack_t> trans(n);
 			for(stack_t i = 0; i < n; ++i){
 				trans[i] = stack.top().pop();
 			}
-- 
2.43.0


From e262264e5a3eb5eee1c38c332542977c02b4a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 10/62] fix: SUBR crashes on negative and large counts

---
 src/fingerprint/FingerprintSUBR.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index c94ee4f..1cec9e2 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintSUBR.h"
 #include "FungeUtilities.h"
+#include <vector>
 
 namespace Funge {
 
@@ -21,8 +22,11 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'C':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector va = popVector(runner);
-			stack_t pops[n];
+			std::vector<stack_t> pops(n);
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
@@ -50,7 +54,10 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
-			stack_t pops[n];
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
+			std::vector<stack_t> pops(n);
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
-- 
2.43.0


From 0ce04d2a575d01c989696a7ee838ded507d04111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 11/62] fix: FRTH rolls overflow the call stack

---
 src/fingerprint/FingerprintDynamic.cpp | 3 ++-
 src/fingerprint/FingerprintFRTH.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintDynamic.cpp b/src/fingerprint/FingerprintDynamic.cpp
index 41138b7..db319da 100644
--- a/src/fingerprint/FingerprintDynamic.cpp
+++ b/src/fingerprint/FingerprintDynamic.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintDynamic.h"
 #include "FungeUtilities.h"
+#include <vector>
 
 namespace Funge {
 
@@ -69,7 +70,7 @@ FungeError FingerprintDynamic::execute(inst_t cmd){
 				if(u < 0){
 					count = -u;
 				}
-				stack_t pops[count+1];
+				std::vector<stack_t> pops(count+1);
 				for(stack_t i = 0; i <= count; ++i){
 					pops[i] = stack.top().pop();
 				}
diff --git a/src/fingerprint/FingerprintFRTH.cpp b/src/fingerprint/FingerprintFRTH.cpp
index 6555983..620ac40 100644
--- a/src/fingerprint/FingerprintFRTH.cpp
+++ b/src/fingerprint/FingerprintFRTH.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintFRTH.h"
+#include <vector>
 
 namespace Funge {
 
@@ -25,7 +26,7 @@ FungeError FingerprintFRTH::execute(inst_t cmd){
 			if(u < 0){
 				count = -u;
 			}
-			stack_t pops[count+1];
+			std::vector<stack_t> pops(count+1);
 			for(stack_t i = 0; i <= count; ++i){
 				pops[i] = stack.top().pop();
 			}
-- 
2.43.0


From daa77ea354256624486ad6b3017643916640218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 12/62] fix: shifting an empty stack does not change it

---
 src/FishStrategy.cpp                | 8 ++++++--
 src/fingerprint/FingerprintFISH.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..34c426c 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -321,7 +321,9 @@ FungeError FishStrategy::instructionShiftLeft(){
 	for(stack_t i = len-1; i > 0; --i){
 		push(TOP, temp[i-1]);
 	}
-	push(TOP, temp[len-1]);
+	if(len > 0){
+		push(TOP, temp[len-1]);
+	}
 	return ERROR_NONE;
 }
 
@@ -332,7 +334,9 @@ FungeError FishStrategy::instructionShiftRight(){
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
-	push(TOP, temp[0]);
+	if(len > 0){
+		push(TOP, temp[0]);
+	}
 	for(stack_t i = len-1; i > 0; --i){
 		push(TOP, temp[i]);
 	}
diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..10cbdc1 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -74,7 +74,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 			for(stack_t i = len-1; i > 0; --i){
 				stack.top().push(temp[i-1]);
 			}
-			stack.top().push(temp[len-1]);
+			if(len > 0){
+				stack.top().push(temp[len-1]);
+			}
 		} break;
 		// Mirror
 		case 'M':{
@@ -102,7 +104,9 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
-			stack.top().push(temp[0]);
+			if(len > 0){
+				stack.top().push(temp[0]);
+			}
 			for(stack_t i = len-1; i > 0; --i){
 				stack.top().push(temp[i]);
 			}
-- 
2.43.0


From e63a7ccb8de646a76bd35acdf7d70bdfd634ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 13/62] fix: put the value of the register back on the stack

---
 src/FishStrategy.cpp       | 1 +
 src/include/FishStrategy.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 34c426c..15729d8 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -442,6 +442,7 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From 223e313fd84314dc948b3000b779783918ac944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 14/62] fix: the third universe of the same name is never
 created

---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From 4121143e4b373db789869d1366bb7cc2903cb0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 15/62] fix: native threads never end the program

---
 src/FungeUniverse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 26d6ba6..7e2004c 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -117,6 +117,7 @@ void FungeUniverse::operator()(){
 				}
 				threads.pop();
 				delete thread;
+				cv.notify_all();
 			}
 			mutex.unlock();
 		}else{
-- 
2.43.0


From bb79bc073a7e583d3b0e667f13fb6a4f5fcb584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 16/62] fix: reading a directory never ends

---
 src/Field.cpp              | 2 +-
 src/Funge.cpp              | 2 +-
 src/Unefunge98Strategy.cpp | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 602b9d4..f84d7e0 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -53,7 +53,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 	Vector v(start);
 	Vector max(start);
 	int last = 0;
-	for(int i = file.get(); !file.eof(); i = file.get()) {
+	for(int i = file.get(); file.good(); i = file.get()) {
 		size_t dims = dimensions;
 		if((i == '\n' || i == '\r') && !binary){
 			if(i == '\r'){
diff --git a/src/Funge.cpp b/src/Funge.cpp
index b290d81..ef5fedd 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -90,7 +90,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}
 	
 	std::ifstream stream(filepath);
-	if(stream.fail()){
+	if(stream.fail() || std::filesystem::is_directory(filepath)){
 		std::cerr << "Failed to open " << filepath << std::endl;
 		return EIO;
 	}
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index dba57e3..63a6025 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -10,6 +10,7 @@
 #include "FungeVersion.h"
 #include "FungeUniverse.h"
 #include <thread>
+#include <filesystem>
 #include <fstream>
 #include <ctime>
 #include <vector>
@@ -247,7 +248,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		Vector va = popVector(runner);
 		va += ip.getStorage();
 		std::ifstream file(filepath);
-		if(!file.fail()){
+		if(!file.fail() && !std::filesystem::is_directory(filepath)){
 			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
-- 
2.43.0


From 863f4b87a7272ccafa042664db2e0226b28dfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 17/62] fix: blank lines, trailing spaces and the current
 directory in FMV files

---
 src/Funge.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index ef5fedd..fe1a87a 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -20,7 +20,6 @@ namespace Funge{
 int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
-	std::string dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
@@ -34,15 +33,18 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 
 		std::string filename;
 		iss >> filename;
+		if(filename.empty()){
+			// Blank line, such as after the last newline
+			continue;
+		}
 		std::filesystem::path path(filename);
 		if(path.is_relative()){
-			path.assign(dir + path.preferred_separator + filename);
+			path = filepath.parent_path() / filename;
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-		while(iss.good()){
-			std::string arg;
-			iss >> arg;
+		std::string arg;
+		while(iss >> arg){
 			cfg.args.push_back(arg);
 		}
 
-- 
2.43.0


From ccff90fecf489afb013c9ebec00b9fb15479a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 18/62] fix: options with an empty value crash

---
 src/Funge.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index fe1a87a..e2e0e97 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -111,8 +111,7 @@ int fungemain(int argc, char **argv, char **envp){
 		if(argv[a][0] != '-'){
 			break;
 		}else if(strncmp(argv[a], "-std=", 5) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=') + 1;
 			if(strcmp(arg, "une93") == 0){
 				funge_config.dimensions = 1;
 				funge_config.standard = Funge::FUNGE_93;
@@ -167,8 +166,7 @@ int fungemain(int argc, char **argv, char **envp){
 		}else if(strcmp(argv[a], "-finvert-hl") == 0){
 			funge_config.inverthl = true;
 		}else if(strncmp(argv[a], "-ftopo=", 7) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=') + 1;
 			if(strcmp(arg, "torus") == 0){
 				funge_config.topo = TOPO_TORUS;
 			}else if(strcmp(arg, "lahey") == 0){
@@ -178,8 +176,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fstrings=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=') + 1;
 			if(strcmp(arg, "multispace") == 0){
 				funge_config.strings = STRING_MULTISPACE;
 			}else if(strcmp(arg, "sgml") == 0){
@@ -191,8 +188,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fcells=", 8) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=') + 1;
 			if(strcmp(arg, "char") == 0){
 				funge_config.cells = CELL_CHAR;
 			}else if(strcmp(arg, "int") == 0){
@@ -202,8 +198,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fthreads=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=') + 1;
 			if(strcmp(arg, "native") == 0){
 				funge_config.threads = THREAD_NATIVE;
 			}else if(strcmp(arg, "funge") == 0){
-- 
2.43.0


From 0ec75782e22e69278236bd92df27eafd63934acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 19/62] fix: fingerprints with long names on the command line

---
 src/Funge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index e2e0e97..ff1a453 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -209,7 +209,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-l", 2) == 0){
 			std::string fing(&argv[a][2]);
-			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), 0, [](uint64_t f, char c){return (f << 8) + c;});
+			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), uint64_t{0}, [](uint64_t f, char c){return (f << 8) + c;});
 			funge_config.fingerprints.push_back(fingerprint);
 		}else if(strcmp(argv[a], "-g") == 0){
 			funge_config.mode |= FUNGE_MODE_DEBUG;
-- 
2.43.0


From b646a306d8b354b268aa5ef792c909da00becf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 20/62] fix: strings that are no numbers crash STRN, FPDP and
 FPSP

---
 src/fingerprint/FingerprintSTRN.cpp        | 3 ++-
 src/fingerprint/include/FingerprintFloat.h | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 22d6042..d2c394a 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintSTRN.h"
 #include "FungeUtilities.h"
+#include <cstdlib>
 
 namespace Funge {
 
@@ -110,7 +111,7 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'V':{
 			std::string str = popString(stack.top());
-			stack.top().push(std::stoi(str));
+			stack.top().push(std::strtoll(str.c_str(), nullptr, 10));
 		} break;
 		default:
 			ret = ERROR_UNIMP;
diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 4f834ab..70a21c7 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,8 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cstdlib>
+#include <cstring>
 #include <iomanip>
 
 namespace Funge {
@@ -102,7 +104,7 @@ class FingerprintFloat : public Fingerprint {
 				} break;
 				case 'R':{
 					std::string s = popString(stack.top());
-					double d = std::stod(s);
+					double d = std::strtod(s.c_str(), nullptr);
 					T n = static_cast<T>(d);
 					stack.top().push(TToStack(n));
 				} break;
-- 
2.43.0


From ab915c60ea4c0ba399a57000b859094d40e1e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 21/62] fix: single precision numbers read past the end of the
 value

---
 src/fingerprint/include/FingerprintFloat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 70a21c7..061e63d 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -143,11 +143,15 @@ class FingerprintFloat : public Fingerprint {
 
 	private:
 		T stackToT(stack_t n){
-			return *reinterpret_cast<T*>(&n);
+			T t;
+			std::memcpy(&t, &n, sizeof(t));
+			return t;
 		}
 
 		stack_t TToStack(T n){
-			return *reinterpret_cast<stack_t*>(&n);
+			stack_t s = 0;
+			std::memcpy(&s, &n, sizeof(n));
+			return s;
 		}
 };
 
-- 
2.43.0


From b2f3d4e9a4b6b4d9ec14e6a7848c331bb6718020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 22/62] fix: DIRF reflects when a directory cannot be made,
 entered or removed

---
 src/fingerprint/FingerprintDIRF.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..d3d23ae 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -6,7 +6,8 @@
 
 #include "FingerprintDIRF.h"
 #include "FungeUtilities.h"
-#include<filesystem>
+#include <filesystem>
+#include <system_error>
 
 namespace Funge {
 
@@ -19,21 +20,23 @@ FungeError FingerprintDIRF::execute(inst_t cmd){
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::current_path(dir);
-			}else{
+			std::error_code err;
+			std::filesystem::current_path(dir, err);
+			if(err){
 				ret = ERROR_UNSPEC;
 			}
 		} break;
 		case 'M':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			std::filesystem::create_directory(dir);
+			std::error_code err;
+			if(!std::filesystem::create_directory(dir, err)){
+				ret = ERROR_UNSPEC;
+			}
 		} break;
 		case 'R':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::remove(dir);
-			}else{
+			std::error_code err;
+			if(!std::filesystem::is_directory(dir, err) || !std::filesystem::remove(dir, err)){
 				ret = ERROR_UNSPEC;
 			}
 		} break;
-- 
2.43.0


From 4e42ec1f26fbad9d3b02841498be0551dfe70602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 23/62] fix: the ancestor of an IP may be missing or have ended

---
 src/FungeRunner.cpp                 | 15 +++++++++++----
 src/fingerprint/FingerprintIIPC.cpp |  7 ++++++-
 src/include/FungeRunner.h           |  6 ++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f5b9743..757dc9c 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -24,7 +24,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(new StackStack()),
 	ip(*this),
-	parent(nullptr),
+	child(false),
+	parent(0),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -42,7 +43,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(r.stack),
 	ip(*this),
-	parent(&r),
+	child(true),
+	parent(r.id),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -60,7 +62,8 @@ FungeRunner::FungeRunner(const FungeRunner& runner) :
 	universe(runner.universe),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
-	parent(&runner),
+	child(true),
+	parent(runner.id),
 	errorHandler(nullptr),
 	normalState(*this),
 	stringState(*this),
@@ -244,7 +247,11 @@ void FungeRunner::setUniverse(FungeUniverse& other){
 	universe = &other;
 }
 
-const FungeRunner* FungeRunner::getParent(){
+bool FungeRunner::hasParent() const{
+	return child;
+}
+
+size_t FungeRunner::getParentID() const{
 	return parent;
 }
 
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index b03310e..2806c7a 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -19,7 +19,12 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
 		case 'A':
-			stack.top().push(runner.getParent()->getID());
+			if(runner.hasParent()){
+				// The parent may have ended already
+				stack.top().push(runner.getParentID());
+			}else{
+				ret = ERROR_UNSPEC;
+			}
 			break;
 		case 'D':{
 			size_t age = stack.top().age();
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index d71aa65..02bd59e 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -54,7 +54,8 @@ class FungeRunner {
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
-		const FungeRunner* getParent();
+		bool hasParent() const;
+		size_t getParentID() const;
 	
 	private:
 		static size_t count;
@@ -63,7 +64,8 @@ class FungeRunner {
 		FungeUniverse* universe;
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
-		const FungeRunner* parent;
+		bool child;
+		size_t parent;
 		std::function<FungeError(FungeError)> errorHandler;
 		std::vector<FungeStrategy*> strategies;
 		
-- 
2.43.0


From 3062122ec0ef3b7dd50858a5d2474bc48b316e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 24/62] fix: new stacks work in the mode of the others

---
 src/StackStack.cpp       | 7 ++++++-
 src/include/StackStack.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..ad08948 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -10,6 +10,7 @@ namespace Funge {
 
 StackStack::StackStack() :
 	select(0),
+	mode(),
 	stack()
 {
 	stack.push_back(new Stack());
@@ -24,6 +25,7 @@ StackStack::~StackStack()
 
 StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
+	mode(),
 	stack()
 {
 	for(size_t i = 0; i < orig.size(); ++i){
@@ -63,12 +65,14 @@ void StackStack::pop(){
 
 void StackStack::push(){
 	stack.push_back(new Stack());
+	stack.back()->setMode(mode);
 }
 
 void StackStack::insert(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	stack.insert(iter, new Stack());
+	iter = stack.insert(iter, new Stack());
+	(*iter)->setMode(mode);
 }
 
 void StackStack::remove(size_t pos){
@@ -82,6 +86,7 @@ size_t StackStack::size() const{
 }
 
 void StackStack::setMode(FungeMode m){
+	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..2bd50bd 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -139,6 +139,7 @@ class StackStack {
 		
 	private:
 		size_t select;
+		FungeMode mode;
 		std::vector<Stack*> stack;
 };
 
-- 
2.43.0


From 92880e231885658fe07d09ad15cdb2181c1b8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 25/62] fix: returning from a call removes the stack below the
 selected one

---
 src/StackStack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index ad08948..6b17e0c 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -77,7 +77,8 @@ void StackStack::insert(size_t pos){
 
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
-	iter += stack.size()-pos-select;
+	iter += stack.size()-pos-select-1;
+	delete *iter;
 	stack.erase(iter);
 }
 
-- 
2.43.0


From 95cfafd4d36a87b12a76a6167e5b44cbfc483a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 26/62] fix: TOYS tumbler on a dimension that does not exist
 exhausts the memory

---
 src/fingerprint/FingerprintTOYS.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..ce8956e 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -161,13 +161,14 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		} break;
 		case 'T':{
 			size_t n = static_cast<size_t>(stack.top().pop());
-			Vector v;
-			if(stack.top().pop() == 0){
-				v.set(n, 1);
-			}else{
-				v.set(n, -1);
-			}
+			stack_t b = stack.top().pop();
 			if(runner.getUniverse().dimensions() > n){
+				Vector v;
+				if(b == 0){
+					v.set(n, 1);
+				}else{
+					v.set(n, -1);
+				}
 				ip.setDelta(v);
 			}else{
 				ret = ERROR_UNSPEC;
-- 
2.43.0


From b8d6b3b17aaf82c906d57eafc242bbe05ef72d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 27/62] fix: NFUN counts the dimension it moves in and reflects
 on negative ones

---
 src/fingerprint/FingerprintNFUN.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index fcd6428..8134535 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -75,6 +75,9 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'X':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			if(stack.top().pop() == 0){
 				v.set(n, 1);
@@ -82,21 +85,27 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 				v.set(n, -1);
 			}
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, -1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, 1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		default:
 			return ERROR_UNIMP;
-- 
2.43.0


From 7687d88c4cfb3c9835c35a90a8a8c7bc3c8093f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 28/62] fix: the instructions of DBUG are never bound

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..843edd9 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -16,6 +16,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 {}
 
 void FingerprintDBUG::activate(){
+	Fingerprint::activate();
 	dbg = &runner.getUniverse().getDebugger();
 }
 
-- 
2.43.0


From cb507bfa6a4a69ba0fc3fb9ef8e49fdacb32cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 29/62] fix: the debugger never ends when its input does

---
 src/Defunge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e02b280..12af65d 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -97,7 +97,10 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 		std::cout << "\e[33m(defunge)\e[0m " << std::flush;
 		
 		std::string line;
-		std::getline(std::cin, line);
+		if(!std::getline(std::cin, line)){
+			// No more commands can come
+			line = "quit";
+		}
 		auto iss = std::istringstream(line);
 		
 		std::string cmd;
-- 
2.43.0


From 5706f31fcb925d66c1cd76724f18f144a507298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 30/62] fix: the debugger shows every stack as stack 0

---
 src/Defunge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 12af65d..2edc0d0 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -214,7 +214,7 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	iss >> c;
 	if(c == 0){
 		for(size_t j = 0; j < stack->size(); ++j){
-			std::cout << "[0] ";
+			std::cout << "[" << j << "] ";
 			for(size_t i = stack->at(j).size(); i > 0; --i){
 				std::cout << stack->at(j).get(i) << " ";
 			}
-- 
2.43.0


From f965a5aa2ec790c0a0a3682806bd82b26aea6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 31/62] fix: a number at the end of the input is lost

---
 src/Unefunge93Strategy.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index eeccb6f..7d1c618 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -214,9 +214,6 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
 		c = getchar();
-		if(c == EOF){
-			return ERROR_UNSPEC;
-		}
 	}
 	ungetc(c, stdin);
 	stack.top().push(num);
-- 
2.43.0


From 2ef7cf49597188c5c42f4294d80d3afa9739ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 32/62] fix: stack operations crash when there is no stack
 below the selected one

---
 src/FishStrategy.cpp        | 2 +-
 src/StackStack.cpp          | 4 ++++
 src/StarfishStrategy.cpp    | 1 +
 src/Unefunge98Strategy.cpp  | 4 ++--
 src/include/StackStack.h    | 6 ++++++
 src/util/include/FishUtil.h | 2 +-
 6 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 15729d8..4304813 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -375,7 +375,7 @@ FungeError FishStrategy::instructionRemoveStack(){
 	while(stack.top().size() > 0){
 		push(SECOND, pop(TOP));
 	}
-	stack.pop();
+	stack.remove(selected);
 	regs.pop();
 	return ERROR_NONE;
 }
diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 6b17e0c..4fcceaa 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -86,6 +86,10 @@ size_t StackStack::size() const{
 	return stack.size();
 }
 
+size_t StackStack::depth() const{
+	return stack.size()-select;
+}
+
 void StackStack::setMode(FungeMode m){
 	mode = m;
 	for(auto s : stack){
diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 66b544a..d4ed405 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -64,6 +64,7 @@ FungeError StarfishStrategy::instructionCall(){
 }
 
 FungeError StarfishStrategy::instructionReturn(){
+	check_selected(selected+1);
 	check_stack(second, runner.getUniverse().dimensions());
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 63a6025..770d3f2 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -165,7 +165,7 @@ FungeError Unefunge98Strategy::instructionClear(){
 
 FungeError Unefunge98Strategy::instructionUnder(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.depth() > 1){
 		const stack_t n = stack.top().pop();
 		if(n > 0){
 			for(stack_t i = 0; i < n; ++i){
@@ -212,7 +212,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 
 FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.depth() > 1){
 		const stack_t n = stack.top().pop();
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 2bd50bd..4ce2a38 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -117,6 +117,12 @@ class StackStack {
 		 */
 		size_t size() const;
 
+		/**
+		 * Get the number of stacks from the selected one down.
+		 * @return Number of stacks, including the selected one.
+		 */
+		size_t depth() const;
+
 		/**
 		 * Set the stack mode.
 		 * @param m New mode.
diff --git a/src/util/include/FishUtil.h b/src/util/include/FishUtil.h
index 51727c8..8fb13ba 100644
--- a/src/util/include/FishUtil.h
+++ b/src/util/include/FishUtil.h
@@ -11,7 +11,7 @@
  * @param _s Stack index.
  * @warning Returns ERROR_UNSPEC from the current function if the check fails.
  */
-#define check_selected(_s) if((_s) >= stack.size()) { return ERROR_UNSPEC; }
+#define check_selected(_s) if((_s) >= stack.depth()) { return ERROR_UNSPEC; }
 
 
 /**
-- 
2.43.0


From 768fd40aa4d152dd6efbfb20b0fa414bc0cf87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 33/62] fix: BASE reads the numbers it prints, and prints
 negative ones

---
 src/fingerprint/FingerprintBASE.cpp       | 46 +++++++++++++----------
 src/fingerprint/include/FingerprintBASE.h |  4 +-
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index f6f5b4a..64401f6 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -49,7 +49,7 @@ const char FingerprintBASE::base85[85] = {
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm',
 	'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
 	'!', '#', '$', '%', '&', '(', ')', '*', '+', '-', ';', '<',
-	'=', '>', '?', '@', '^', '_', '`', '{', '|', '{', '~'
+	'=', '>', '?', '@', '^', '_', '`', '{', '|', '}', '~'
 };
 
 FingerprintBASE::FingerprintBASE(FungeRunner& r) :
@@ -96,7 +96,12 @@ FungeError FingerprintBASE::execute(inst_t cmd){
 
 void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	if(base > 1){
-		printBase(num, base, true);
+		if(num < 0){
+			std::cout << "-";
+			printBase(-static_cast<uint64_t>(num), base, true);
+		}else{
+			printBase(num, base, true);
+		}
 	}else{
 		for(stack_t i = 0; i < num; ++i){
 			std::cout << "0";
@@ -105,9 +110,9 @@ void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	std::cout << " " << std::flush;
 }
 
-void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
-	stack_t digit = num % base;
-	stack_t next = num / base;
+void FingerprintBASE::printBase(uint64_t num, unsigned int base, bool low) const{
+	uint64_t digit = num % base;
+	uint64_t next = num / base;
 	if(next > 0){
 		printBase(next, base, false);
 	}
@@ -132,30 +137,31 @@ stack_t FingerprintBASE::readNum(unsigned int base) const{
 	stack_t num = 0;
 	if(base <= 1){
 		num = str.size();
-	}else if(base <= sizeof(digit_map)){
+	}else{
 		readBase(str, &num, base);
 	}
 	return num;
 }
 
-bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base) const{
-	char digit = str[0];
-	bool found = false;
-	if(base <= 36){
-		std::transform(str.begin(), str.end(), str.begin(), ::toupper);
+void FingerprintBASE::readBase(const std::string& str, stack_t* num, unsigned int base) const{
+	const char* digits = digit_map;
+	if(base > sizeof(digit_map)){
+		auto map = base_map.find(base);
+		if(map == base_map.end()){
+			return;
+		}
+		digits = map->second;
 	}
-	for(size_t i = 0; i <= base; ++i){
-		if(digit_map[i] == digit){
-			*num = (*num*base) + i;
-			found = true;
+	for(char digit : str){
+		if(base <= 36){
+			digit = ::toupper(digit);
+		}
+		const char* found = std::find(digits, digits + base, digit);
+		if(found == digits + base){
 			break;
 		}
+		*num = (*num*base) + (found - digits);
 	}
-	if(found && str.size() > 1){
-		str.erase(0, 1);
-		readBase(str, num, base);
-	}
-	return true;
 }
 
 }
diff --git a/src/fingerprint/include/FingerprintBASE.h b/src/fingerprint/include/FingerprintBASE.h
index a75c451..5fb6cf1 100644
--- a/src/fingerprint/include/FingerprintBASE.h
+++ b/src/fingerprint/include/FingerprintBASE.h
@@ -29,9 +29,9 @@ class FingerprintBASE : public Fingerprint {
 		std::map<unsigned int, const char*> base_map;
 		
 		void printNum(stack_t num, unsigned int base) const;
-		void printBase(stack_t num, unsigned int base, bool low) const;
+		void printBase(uint64_t num, unsigned int base, bool low) const;
 		stack_t readNum(unsigned int base) const;
-		bool readBase(std::string str, stack_t* num, unsigned int base) const;
+		void readBase(const std::string& str, stack_t* num, unsigned int base) const;
 };
 
 }
-- 
2.43.0


From 8e67ab5260bfe929415e89d522c9850b0579a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 34/62] fix: TOYS areas with nothing in their last dimensions
 are not empty

---
 src/fingerprint/FingerprintTOYS.cpp       | 21 ++++++++++++++++++---
 src/fingerprint/include/FingerprintTOYS.h |  1 +
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index ce8956e..100be06 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -8,6 +8,7 @@
 #include "FungeUtilities.h"
 #include "FungeUniverse.h"
 #include "VectorRange.h"
+#include <algorithm>
 #include <cmath>
 
 namespace Funge {
@@ -93,7 +94,9 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 				dim_t ymin = field.min(1);
 				dim_t ymax = field.max(1);
 				dim_t x = ip.getPos().get(0);
-				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
+				Vector size = unitSize();
+				size.set(1, ymax-ymin+1);
+				copySpace(Vector({x, ymin}), size, Vector({x, ymin+n}), (n < 0), true);
 			}
 		} break;
 		case 'K':{
@@ -124,7 +127,9 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 				dim_t xmin = field.min(0);
 				dim_t xmax = field.max(0);
 				dim_t y = ip.getPos().get(1);
-				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
+				Vector size = unitSize();
+				size.set(0, xmax-xmin+1);
+				copySpace(Vector({xmin, y}), size, Vector({xmin+n, y}), (n < 0), true);
 			}
 		} break;
 		case 'P':{
@@ -277,8 +282,18 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 	}
 }
 
+Vector FingerprintTOYS::unitSize() const{
+	Vector size;
+	for(size_t d = 0; d < runner.getUniverse().dimensions(); ++d){
+		size.set(d, 1);
+	}
+	return size;
+}
+
 bool FingerprintTOYS::sizeToRange(Vector& size){
-	for(size_t d = 0; d < size.size(); ++d){
+	// The last sizes are not part of the vector when they are zero
+	const size_t len = std::max(size.size(), runner.getUniverse().dimensions());
+	for(size_t d = 0; d < len; ++d){
 		dim_t s = size.get(d);
 		if(s > 0){
 			size.set(d, s-1);
diff --git a/src/fingerprint/include/FingerprintTOYS.h b/src/fingerprint/include/FingerprintTOYS.h
index f0a31ac..67bd6bb 100644
--- a/src/fingerprint/include/FingerprintTOYS.h
+++ b/src/fingerprint/include/FingerprintTOYS.h
@@ -24,6 +24,7 @@ class FingerprintTOYS : public Fingerprint {
 		std::uniform_int_distribution<stack_t> dis;
 		
 		void copySpace(const Vector& src, const Vector& sz, const Vector& dest, bool low, bool move);
+		Vector unitSize() const;
 		bool sizeToRange(Vector& size);
 };
 
-- 
2.43.0


From 31e68ff910a480863c2302d1952b3de4f4ca4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 35/62] fix: a program that ends under k goes on

---
 src/Unefunge98Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 770d3f2..3056926 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -135,7 +135,7 @@ FungeError Unefunge98Strategy::instructionIterate(){
 		return ERROR_NONE;
 	}
 	ip.setPos(v);
-	for(stack_t i = 0; i < k; i++){
+	for(stack_t i = 0; i < k && runner.isRunning(); i++){
 		runner.execute(c);
 	}
 	return ERROR_NONE;
-- 
2.43.0


From b728744143aff72b4123a10c6d8004189ce462fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 36/62] fix: a new IP has its stacks upside down

---
 src/StackStack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 4fcceaa..296b958 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -28,8 +28,8 @@ StackStack::StackStack(const StackStack& orig) :
 	mode(),
 	stack()
 {
-	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+	for(auto s : orig.stack){
+		stack.push_back(new Stack(*s));
 	}
 }
 
-- 
2.43.0


From 3558f3673181771c7b7f62e49b39939878760658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 37/62] fix: the dimensions of BeQunge and Funge-lib files are
 those they say

---
 src/Field.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index f84d7e0..e5cfe99 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -32,9 +32,6 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parseFungeLib(file);
 			break;
 	}
-	if(dim == 0){
-		dimensions = maxs.size();
-	}
 }
 
 Field::Field(size_t dim, FungeCell csize) :
-- 
2.43.0


From 57df290192aa169e25f5aa4e86c23a8f90075736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 38/62] fix: NFUN does not take over B, which it does not
 implement

---
 src/fingerprint/FingerprintNFUN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index 8134535..5e686df 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -11,7 +11,7 @@ namespace Funge {
 
 FingerprintNFUN::FingerprintNFUN(FungeRunner& r) :
 	Fingerprint(r,
-			{'A', 'B', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
+			{'A', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
 {}
 
 FungeError FingerprintNFUN::execute(inst_t cmd){
-- 
2.43.0


From c97cad2e3da74dfa88d71ec0c7dac210cdbc8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 39/62] fix: base 64 of BASE has its digits 0 to 9

---
 src/fingerprint/FingerprintBASE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 64401f6..4672577 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -38,7 +38,8 @@ const char FingerprintBASE::base64[64] = {
 	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L',
 	'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n',
-	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '+', '/'
+	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
+	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'
 };
 
 // RFC 1924 base85
-- 
2.43.0


From 2ca3a1c3add3fa4d8d8d12f0db6db7c51e2bc696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 40/62] fix: a vector without its closing parenthesis does not
 hang the debugger

---
 src/Vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index 354659e..b66b06a 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -171,14 +171,14 @@ std::ostream& operator<<(std::ostream& os, const Vector& rhs){
 
 std::istream& operator>>(std::istream& is, Vector& rhs){
 	rhs.values.clear();
-	char c;
+	char c = '\0';
 	is >> c;
 	if(c == '('){
 		is >> c;
 		size_t d = 0;
 		dim_t v = 0;
 		bool neg = false;
-		while(c != ')'){
+		while(is && c != ')'){
 			if(isdigit(c)){
 				v = (v*10)+(c-'0');
 			}else if(c == ','){
-- 
2.43.0


From d22e62290550a3ad2adc5da100fc1a84fd7779e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 41/62] fix: quit in the debugger ends the program before the
 current instruction

---
 src/FungeRunner.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 757dc9c..9301cdb 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -136,6 +136,10 @@ void FungeRunner::tick(){
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
+		if(ip.isStopped()){
+			// The debugger has quit
+			return;
+		}
 		inst_t i = ip.get();
 		err = execute(i);
 		switch(err){
-- 
2.43.0


From 2e52a64000a4338053ad6ca20a68b0465d2a2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 42/62] fix: peek beyond the stacks does not crash the debugger

---
 src/Defunge.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 2edc0d0..e115027 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -223,7 +223,11 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	}else{
 		size_t s = 0;
 		iss >> s;
-		std::cout << stack->at(s).get(c) << std::endl;
+		stack_t n = 0;
+		if(s < stack->size()){
+			n = stack->at(s).get(c);
+		}
+		std::cout << n << std::endl;
 	}
 	return DEFUNGE_OK;
 }
-- 
2.43.0


From b34b23915bd01d20dc1184165374d5ba91e5d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 43/62] fix: the debugger's list of threads shows the position
 of each

---
 src/Defunge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e115027..b7057ae 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -127,7 +127,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 }
 
 void Defunge::printIP(const FungeRunner& r){
-	const InstructionPointer& ip = runner->getIP();
+	const InstructionPointer& ip = r.getIP();
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
-- 
2.43.0


From 6f38ed114dc597e3ff4040c08741f3a843b3aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 44/62] fix: the debugger lists just the area of the field
 asked for

---
 src/Defunge.cpp | 67 ++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index b7057ae..0a85228 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -134,43 +134,42 @@ void Defunge::printIP(const FungeRunner& r){
 void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip){
 	const Vector start = center-size;
 	const Vector end = center+size;
-	Vector pos = start;
-	while(pos <= end){
-		inst_t i = field.get(pos);
-		bool color = false;
-		for(auto t : dbg->threads){
-			if(t.second.runner->getIP().getPos() == pos){
-				std::cout << "\e[43;1m"; // Yellow background
+	Vector pos = center;
+	for(dim_t y = start[dim[1]]; y <= end[dim[1]]; ++y){
+		for(dim_t x = start[dim[0]]; x <= end[dim[0]]; ++x){
+			pos.set(dim[1], y);
+			pos.set(dim[0], x);
+			inst_t i = field.get(pos);
+			bool color = false;
+			for(auto t : dbg->threads){
+				if(t.second.runner->getIP().getPos() == pos){
+					std::cout << "\e[43;1m"; // Yellow background
+					color = true;
+					break;
+				}
+			}
+			if(dbg->breakpoints.contains(pos)){
+				std::cout << "\e[41;1m"; // Red background
 				color = true;
-				break;
+			}
+			if(dbg->watchpoints.contains(pos)){
+				std::cout << "\e[34;1m"; // Blue text
+				color = true;
+			}
+			if(pos == center){
+				std::cout << "\e[4m"; // Underline
+				color = true;
+			}
+			if(ip != nullptr && pos == ip->getPos()){
+				std::cout << "\e[42;1m"; // Green background
+				color = true;
+			}
+			std::cout << static_cast<char>(i);
+			if(color){
+				std::cout << "\e[0m";
 			}
 		}
-		if(dbg->breakpoints.contains(pos)){
-			std::cout << "\e[41;1m"; // Red background
-			color = true;
-		}
-		if(dbg->watchpoints.contains(pos)){
-			std::cout << "\e[34;1m"; // Blue text
-			color = true;
-		}
-		if(pos == center){
-			std::cout << "\e[4m"; // Underline
-			color = true;
-		}
-		if(ip != nullptr && pos == ip->getPos()){
-			std::cout << "\e[42;1m"; // Green background
-			color = true;
-		}
-		std::cout << static_cast<char>(i);
-		if(color){
-			std::cout << "\e[0m";
-		}
-		pos.set(dim[0], pos[dim[0]]+1); // ++x
-		if(pos[dim[0]] > end[dim[0]]){
-			pos.set(dim[1], pos[dim[1]]+1); // ++y
-			pos.set(dim[0], start[dim[0]]); // x = 0
-			std::cout << std::endl;
-		}
+		std::cout << std::endl;
 	}
 }
 
-- 
2.43.0


From b62a46a9ed165f8172f53e003975bbae7ba05eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 45/62] fix: the debugger does not touch threads that have
 ended

---
 src/Defunge.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 0a85228..257a8e3 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -142,7 +142,7 @@ void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& c
 			inst_t i = field.get(pos);
 			bool color = false;
 			for(auto t : dbg->threads){
-				if(t.second.runner->getIP().getPos() == pos){
+				if(t.second.state != FungeDebugger::STATE_END && t.second.runner->getIP().getPos() == pos){
 					std::cout << "\e[43;1m"; // Yellow background
 					color = true;
 					break;
@@ -272,7 +272,7 @@ Defunge::Error Defunge::threadCommand(std::istringstream& iss){
 	}
 	size_t thread = tid;
 	iss >> thread;
-	if(debugger->threads.contains(thread)){
+	if(debugger->threads.contains(thread) && debugger->threads[thread].state != FungeDebugger::STATE_END){
 		tid = thread;
 		runner = debugger->threads[tid].runner;
 	}
@@ -439,11 +439,11 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 		FungeUniverse* uni = multi[name];
 		if(uni != nullptr){
 			debugger = &uni->getDebugger();
-			if(debugger->threads.empty()){
-				runner = nullptr;
-			}else{
-				size_t id = debugger->lastThread;
+			size_t id = debugger->lastThread;
+			if(debugger->threads.contains(id) && debugger->threads[id].state != FungeDebugger::STATE_END){
 				runner = debugger->threads[id].runner;
+			}else{
+				runner = nullptr;
 			}
 		}
 	}
-- 
2.43.0


From 36954db7c1f7318584f241a0749169889346da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 46/62] fix: a native thread left at the end is joined once

---
 src/FungeUniverse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 7e2004c..9c317cf 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -59,6 +59,7 @@ FungeUniverse::~FungeUniverse(){
 		std::thread* thread = threads.front();
 		thread->join();
 		delete thread;
+		threads.pop();
 	}
 	while(runners.size() > 0){
 		FungeRunner* runner = runners.front();
-- 
2.43.0


From 518f132e5706358c56975000818a299cac81390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 47/62] fix: native threads never get the same ID

---
 src/FungeRunner.cpp       | 2 +-
 src/include/FungeRunner.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 9301cdb..5ba6faa 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -17,7 +17,7 @@
 
 namespace Funge {
 
-size_t FungeRunner::count = 0;
+std::atomic<size_t> FungeRunner::count = 0;
 
 FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& delta) :
 	id(count++),
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index 02bd59e..4682a0a 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -12,6 +12,7 @@
 #include "FungeStateNormal.h"
 #include "FungeStateString.h"
 #include "FungeConfig.h"
+#include <atomic>
 #include <memory>
 
 namespace Funge {
@@ -58,7 +59,7 @@ class FungeRunner {
 		size_t getParentID() const;
 	
 	private:
-		static size_t count;
+		static std::atomic<size_t> count;
 
 		size_t id;
 		FungeUniverse* universe;
-- 
2.43.0


From dbd539c80175dafe3670c8111f09963331c73420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 48/62] fix: native threads can read and write the same
 fungespace

---
 src/Field.cpp       | 8 +++++++-
 src/include/Field.h | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index e5cfe99..edae25f 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -6,6 +6,7 @@
 
 #include "Field.h"
 #include <limits>
+#include <mutex>
 #include <string>
 #include <sstream>
 
@@ -227,6 +228,7 @@ void Field::reset(dim_t d, Vector& v, const Vector& start, Vector& max){
 }
 
 dim_t Field::min(size_t d) const{
+	std::shared_lock lock(mutex);
 	dim_t ret = 0;
 	if(d < mins.size()){
 		ret = mins[d];
@@ -235,6 +237,7 @@ dim_t Field::min(size_t d) const{
 }
 
 dim_t Field::max(size_t d) const{
+	std::shared_lock lock(mutex);
 	dim_t ret = 0;
 	if(d < maxs.size()){
 		ret = maxs[d];
@@ -243,13 +246,14 @@ dim_t Field::max(size_t d) const{
 }
 
 void Field::put(const Vector& p, inst_t v){
+	callObservers(p, v);
+	std::unique_lock lock(mutex);
 	while(maxs.size() < p.size()){
 		maxs.push_back(0);
 	}
 	while(mins.size() < p.size()){
 		mins.push_back(0);
 	}
-	callObservers(p, v);
 	if(v == ' '){
 		auto find = field.find(p);
 		if(find == field.end()){
@@ -304,6 +308,7 @@ void Field::put(const Vector& p, inst_t v){
 
 size_t Field::size() const {
 	if(dimensions == 0){
+		std::shared_lock lock(mutex);
 		return maxs.size();
 	}else{
 		return dimensions;
@@ -311,6 +316,7 @@ size_t Field::size() const {
 }
 
 inst_t Field::get(const Vector& p) const{
+	std::shared_lock lock(mutex);
 	inst_t ret = ' ';
 	auto find = field.find(p);
 	if(find != field.end()){
diff --git a/src/include/Field.h b/src/include/Field.h
index b0b8474..64a5810 100644
--- a/src/include/Field.h
+++ b/src/include/Field.h
@@ -9,6 +9,7 @@
 #include "Vector.h"
 #include "funge_types.h"
 #include <iostream>
+#include <shared_mutex>
 #include <unordered_map>
 #include <vector>
 #include <functional>
@@ -131,6 +132,7 @@ class Field {
 		std::vector<std::function<void(const Vector&, inst_t)>> observers;
 		size_t dimensions;
 		FungeCell cellsize;
+		mutable std::shared_mutex mutex; ///< Native threads share the fungespace.
 		
 		void parseBeq(std::istream& file);
 		void parseFungeLib(std::istream& file);
-- 
2.43.0


From 4baeb05c085c1ab4d23a63d770a39a7e440508c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 49/62] fix: hand an IP over to its new universe at the end of
 its tick

---
 src/FungeUniverse.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 9c317cf..be5ab16 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -85,11 +85,9 @@ void FungeUniverse::createRunner(const Vector& pos, const Vector& delta, FungeRu
 
 void FungeUniverse::transferRunner(FungeRunner* runner){
 	if(&runner->getUniverse() != this){
-		std::lock_guard<std::mutex> guard(mutex);
+		// The runner is handed over at the end of its tick
 		runner->setUniverse(*this);
 		runner->setMode(config.mode);
-		runners.push_back(runner);
-		semaphore.release();
 	}
 }
 
@@ -132,8 +130,9 @@ void FungeUniverse::operator()(){
 				}
 				mutex.lock();
 
-				runners.pop_front();
-				if(&thread->getUniverse() == this){
+				FungeUniverse& next = thread->getUniverse();
+				if(&next == this){
+					runners.pop_front();
 					if(thread->isRunning()){
 						runners.push_back(thread);
 					}else{
@@ -142,7 +141,15 @@ void FungeUniverse::operator()(){
 						cv.notify_all();
 					}
 				}else{
+					mutex.unlock();
+					{
+						std::scoped_lock lock(mutex, next.mutex);
+						runners.pop_front();
+						next.runners.push_back(thread);
+						next.semaphore.release();
+					}
 					cv.notify_all();
+					mutex.lock();
 				}
 			}
 			mutex.unlock();
-- 
2.43.0


From bb662997f425bcc51727665e795489a80dc3752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 50/62] fix: wait for IPs that move between universes and lock
 the list of universes

---
 src/FungeMultiverse.cpp       | 22 +++++++++++++---------
 src/FungeUniverse.cpp         |  7 +++++++
 src/include/FungeMultiverse.h |  1 +
 src/include/FungeUniverse.h   |  8 ++++++++
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 37ceab8..f243ee6 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -62,19 +62,21 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 
 int FungeMultiverse::waitAll(){
 	bool running = false;
-	size_t count = 0;
 	do{
-		running = false;
-		for(auto next : universes){
-			const FungeUniverse* uni = next.second;
-			if(uni->isRunning()){
-				running = true;
+		std::vector<const FungeUniverse*> all;
+		size_t transfers = FungeUniverse::getTransfers();
+		{
+			std::lock_guard<std::mutex> guard(mutex);
+			for(auto next : universes){
+				all.push_back(next.second);
 			}
+		}
+		for(auto uni : all){
 			uni->wait();
-			++count;
 		}
-		// Keep looping until all universes are dead
-	}while(running || count < universes.size());
+		// Keep looping until all universes are dead, and no runner has moved among them meanwhile
+		running = (transfers != FungeUniverse::getTransfers() || all.size() != size());
+	}while(running);
 
 	return prime->get();
 }
@@ -86,6 +88,7 @@ void FungeMultiverse::killAll(int ret){
 }
 
 FungeUniverse* FungeMultiverse::operator[](std::string name){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(universes.contains(name)){
 		return universes[name];
 	}
@@ -100,6 +103,7 @@ std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse:
 }
 
 size_t FungeMultiverse::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return universes.size();
 }
 
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index be5ab16..fbcd12b 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -10,6 +10,8 @@
 
 namespace Funge {
 
+std::atomic<size_t> FungeUniverse::transfers = 0;
+
 FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
@@ -147,6 +149,7 @@ void FungeUniverse::operator()(){
 						runners.pop_front();
 						next.runners.push_back(thread);
 						next.semaphore.release();
+						++transfers;
 					}
 					cv.notify_all();
 					mutex.lock();
@@ -162,6 +165,10 @@ void FungeUniverse::wait() const{
 	cv.wait(lock, [this]{return !isRunning();});
 }
 
+size_t FungeUniverse::getTransfers(){
+	return transfers;
+}
+
 int FungeUniverse::get() const{
 	return exitcode;
 }
diff --git a/src/include/FungeMultiverse.h b/src/include/FungeMultiverse.h
index 381e4d9..f816393 100644
--- a/src/include/FungeMultiverse.h
+++ b/src/include/FungeMultiverse.h
@@ -9,6 +9,7 @@
 #include "FungeUniverse.h"
 #include <unordered_map>
 #include <mutex>
+#include <vector>
 
 namespace Funge {
 
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 954bfee..458f769 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -11,6 +11,7 @@
 #include "FungeRunner.h"
 #include "FungeDebugger.h"
 #include "FungeSem.h"
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
@@ -123,7 +124,14 @@ class FungeUniverse {
 		bool allowFingerprints() const;
 		bool invertHL() const;
 	
+		/**
+		 * Get the number of runners that have moved to another universe.
+		 * @return Number of transfers.
+		 */
+		static size_t getTransfers();
+	
 	private:
+		static std::atomic<size_t> transfers;
 		bool running;
 		int exitcode;
 		FungeConfig config;
-- 
2.43.0


From 6d7904569200261c93cc869904ec1f8f18418c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 51/62] fix: act on the field of the universe an IP is in

---
 src/Fingerprint.cpp                 | 1 -
 src/FishStrategy.cpp                | 2 ++
 src/FungeStrategy.cpp               | 1 -
 src/Unefunge93Strategy.cpp          | 2 ++
 src/Unefunge98Strategy.cpp          | 4 ++++
 src/fingerprint/FingerprintJSTR.cpp | 1 +
 src/fingerprint/FingerprintORTH.cpp | 1 +
 src/fingerprint/FingerprintSTRN.cpp | 1 +
 src/fingerprint/FingerprintTOYS.cpp | 2 ++
 src/include/Fingerprint.h           | 1 -
 src/include/FungeStrategy.h         | 1 -
 11 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Fingerprint.cpp b/src/Fingerprint.cpp
index e17dc76..451132d 100644
--- a/src/Fingerprint.cpp
+++ b/src/Fingerprint.cpp
@@ -13,7 +13,6 @@ namespace Funge {
 
 Fingerprint::Fingerprint(FungeRunner& r, std::initializer_list<inst_t> in) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	inst(in)
diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 4304813..ec51567 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -417,6 +417,7 @@ FungeError FishStrategy::instructionIn(){
 }
 
 FungeError FishStrategy::instructionGet(){
+	Field& field = runner.getField();
 	check_stack(top, runner.getUniverse().dimensions());
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
@@ -425,6 +426,7 @@ FungeError FishStrategy::instructionGet(){
 }
 
 FungeError FishStrategy::instructionPut(){
+	Field& field = runner.getField();
 	check_stack(top, runner.getUniverse().dimensions()+1);
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
diff --git a/src/FungeStrategy.cpp b/src/FungeStrategy.cpp
index b920e54..97eac41 100644
--- a/src/FungeStrategy.cpp
+++ b/src/FungeStrategy.cpp
@@ -11,7 +11,6 @@ namespace Funge {
 
 FungeStrategy::FungeStrategy(FungeRunner& r) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	rd(),
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 7d1c618..540b6e1 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -258,6 +258,7 @@ FungeError Unefunge93Strategy::instructionNumOut(){
 }
 
 FungeError Unefunge93Strategy::instructionGet(){
+	Field& field = runner.getField();
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
 	stack.top().push(static_cast<stack_t>(field.get(v+storage)));
@@ -265,6 +266,7 @@ FungeError Unefunge93Strategy::instructionGet(){
 }
 
 FungeError Unefunge93Strategy::instructionPut(){
+	Field& field = runner.getField();
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
 	field.put(v+storage, stack.top().pop());
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 3056926..19f043e 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,6 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 }
 
 FungeError Unefunge98Strategy::instructionIterate(){
+	Field& field = runner.getField();
 	Vector v = ip.getPos();
 	ip.next();
 	inst_t c = field.get(ip.getPos());
@@ -241,6 +242,7 @@ FungeError Unefunge98Strategy::instructionEnd(){
 }
 
 FungeError Unefunge98Strategy::instructionFileIn(){
+	Field& field = runner.getField();
 	FungeError ret = ERROR_NONE;
 	if(runner.getUniverse().allowFilesystem()){
 		std::string filepath = popString(stack.top());
@@ -263,6 +265,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 }
 
 FungeError Unefunge98Strategy::instructionFileOut(){
+	Field& field = runner.getField();
 	FungeError ret = ERROR_NONE;
 	if(runner.getUniverse().allowFilesystem()){
 		std::string filepath = popString(stack.top());
@@ -357,6 +360,7 @@ FungeError Unefunge98Strategy::instructionUnload(){
 }
 
 void Unefunge98Strategy::pushSysInfo(int num){
+	Field& field = runner.getField();
 	const size_t s = runner.getUniverse().dimensions();
 	const stack_t tsize = stack.top().size();
 	int pushes = 0;
diff --git a/src/fingerprint/FingerprintJSTR.cpp b/src/fingerprint/FingerprintJSTR.cpp
index ccbd751..538ee3b 100644
--- a/src/fingerprint/FingerprintJSTR.cpp
+++ b/src/fingerprint/FingerprintJSTR.cpp
@@ -14,6 +14,7 @@ FingerprintJSTR::FingerprintJSTR(FungeRunner& r) :
 {}
 
 FungeError FingerprintJSTR::execute(inst_t cmd){
+	Field& field = runner.getField();
 	switch(cmd){
 		case 'G':{
 			stack_t n = stack.top().pop();
diff --git a/src/fingerprint/FingerprintORTH.cpp b/src/fingerprint/FingerprintORTH.cpp
index b1361ec..b05ff28 100644
--- a/src/fingerprint/FingerprintORTH.cpp
+++ b/src/fingerprint/FingerprintORTH.cpp
@@ -14,6 +14,7 @@ FingerprintORTH::FingerprintORTH(FungeRunner& r) :
 {}
 
 FungeError FingerprintORTH::execute(inst_t cmd){
+	Field& field = runner.getField();
 	switch(cmd){
 		case 'A':{
 			stack_t a = stack.top().pop();
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index d2c394a..791f874 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -15,6 +15,7 @@ FingerprintSTRN::FingerprintSTRN(FungeRunner& r) :
 {}
 
 FungeError FingerprintSTRN::execute(inst_t cmd){
+	Field& field = runner.getField();
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
 		case 'A':{
diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 100be06..aef4e2c 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -24,6 +24,7 @@ FingerprintTOYS::FingerprintTOYS(FungeRunner& r) :
 {}
 
 FungeError FingerprintTOYS::execute(inst_t cmd){
+	Field& field = runner.getField();
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
 		case 'A':{
@@ -260,6 +261,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 }
 
 void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vector& dest, bool low, bool move){
+	Field& field = runner.getField();
 	Vector bound(sz);
 	if(sizeToRange(bound)){
 		Vector start, end;
diff --git a/src/include/Fingerprint.h b/src/include/Fingerprint.h
index 95ad62b..ec8f5cf 100644
--- a/src/include/Fingerprint.h
+++ b/src/include/Fingerprint.h
@@ -24,7 +24,6 @@ class Fingerprint {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		std::vector<inst_t> inst;
diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index ab1aec4..dda894c 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -27,7 +27,6 @@ class FungeStrategy {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		
-- 
2.43.0


From f775c861c5bdf68b9777790ae28397c847616bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 52/62] fix: keep the restrictions in universes made by MVRS

---
 src/fingerprint/FingerprintMVRS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 4b44a70..5fa4f95 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -55,6 +55,11 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.dimensions = dim;
 				config.standard = stand;
 				config.mode = flgs;
+				// What is not allowed here is not allowed there
+				config.concurrent = universe.allowConcurrent();
+				config.execute = universe.allowExecute();
+				config.filesystem = universe.allowFilesystem();
+				config.fingerprint = universe.allowFingerprints();
 				multi.create(config);
 			}
 		} break;
-- 
2.43.0


From 75a9fd0ff2fd2081f15a3586c3ca8ae6cc573be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 53/62] fix: read bytes from 128 on in BeQunge and funge-lib
 files as in other files

---
 src/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index edae25f..63e1cf9 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -144,7 +144,7 @@ void Field::parseBeq(std::istream& file){
 			Vector pos(origin);
 			for(size_t i = 0; i < lines; ++i){
 				std::getline(file, line);
-				for(auto c : line){
+				for(unsigned char c : line){
 					put(pos, c);
 					pos.set(0, pos.get(0)+1); // ++x
 				}
@@ -176,7 +176,7 @@ void Field::parseFungeLib(std::istream& file){
 			}
 		}
 
-		for(char i : line){
+		for(unsigned char i : line){
 			put(pos, i);
 			pos += Vector{1};
 		}
-- 
2.43.0


From c24ab480721b873b57c36af15e3049287a184046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 54/62] fix: load fingerprints only from the library

---
 src/fingerprint/FingerprintFungeLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index 4e6384f..0ac4fb5 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -23,6 +23,11 @@ FingerprintFungeLib::FingerprintFungeLib(FungeRunner& r, std::istream& file, Fun
 }
 
 FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::string& name){
+	if(name.find_first_of(std::string("/\0", 2)) != std::string::npos){
+		// Not the name of a file in the library
+		return nullptr;
+	}
+
 	std::filesystem::path fl = std::filesystem::canonical("/proc/self/exe").parent_path();
 	fl /= "..";
 	fl /= "fing";
-- 
2.43.0


From abab6be02d1ba837c404181d3141989239af9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 55/62] fix: end all universes before any of them is destroyed

---
 src/FungeMultiverse.cpp     | 8 +++++++-
 src/FungeUniverse.cpp       | 8 +++++++-
 src/include/FungeUniverse.h | 5 +++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index f243ee6..501dbcf 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -17,7 +17,13 @@ FungeMultiverse::FungeMultiverse() :
 }
 
 FungeMultiverse::~FungeMultiverse(){
-	std::lock_guard<std::mutex> guard(mutex);
+	// A universe may wait for another one, so all have to end before any is destroyed
+	for(auto uni : universes){
+		uni.second->killAll(1);
+	}
+	for(auto uni : universes){
+		uni.second->join();
+	}
 	for(auto uni : universes){
 		// Destroy the universe
 		delete uni.second;
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index fbcd12b..ac83b4d 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -54,7 +54,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 
 FungeUniverse::~FungeUniverse(){
 	killAll(1);
-	thread->join();
+	join();
 
 	std::lock_guard<std::mutex> guard(mutex);
 	while(threads.size() > 0){
@@ -184,6 +184,12 @@ void FungeUniverse::killAll(int ret){
 	cv.notify_all();
 }
 
+void FungeUniverse::join(){
+	if(thread->joinable()){
+		thread->join();
+	}
+}
+
 bool FungeUniverse::isRunning() const{
 	bool alive = (runners.size() > 0);
 	if(config.threads == THREAD_NATIVE){
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 458f769..be7b244 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -56,6 +56,11 @@ class FungeUniverse {
 		 */
 		void killAll(int ret);
 
+		/**
+		 * Wait for the thread of a killed universe to end.
+		 */
+		void join();
+
 		/**
 		 * Check if the universe is running.
 		 * @return true if there are runners in the universe.
-- 
2.43.0


From f31d0e5a68141804661957c1628a8ed8e60ae1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 56/62] fix: an empty multiverse ends at once

---
 src/FungeMultiverse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 501dbcf..f09495b 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -84,7 +84,8 @@ int FungeMultiverse::waitAll(){
 		running = (transfers != FungeUniverse::getTransfers() || all.size() != size());
 	}while(running);
 
-	return prime->get();
+	// An empty multiverse has no prime universe
+	return (prime != nullptr) ? prime->get() : 0;
 }
 
 void FungeMultiverse::killAll(int ret){
-- 
2.43.0


From 7b779abf799a0d8cc04842890c96ad079f94ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 57/62] fix: report malformed BeQunge files instead of aborting

---
 src/Field.cpp | 10 +++++-----
 src/Funge.cpp |  9 ++++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 63e1cf9..f2d393d 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -119,19 +119,19 @@ void Field::parseBeq(std::istream& file){
 				// ok
 			}else if(cmd[0] == "Dimensions"){
 				if(dims == 0){
-					dims = std::stoul(cmd[1]);
+					dims = std::stoul(cmd.at(1));
 				}else{
 					std::cerr << "Unexpected dimensions" << std::endl;
 				}
 			}else if(cmd[0] == "Lines"){
-				lines = std::stoul(cmd[1]);
+				lines = std::stoul(cmd.at(1));
 			}else if(cmd[0] == "Origin"){
-				auto orig = splitString(cmd[1], ':');
+				auto orig = splitString(cmd.at(1), ':');
 				for(dim = 0; dim < orig.size(); ++dim){
 					origin.set(dim, std::stoi(orig[dim]));
 				}
 			}else if(cmd[0] == "Coord"){
-				auto orig = splitString(cmd[1], ':');
+				auto orig = splitString(cmd.at(1), ':');
 				size_t start = dim;
 				for( ; dim < orig.size()+start; ++dim){
 					if(orig[dim-start].size() > 0){
@@ -142,7 +142,7 @@ void Field::parseBeq(std::istream& file){
 		}
 		if(lines > 0){
 			Vector pos(origin);
-			for(size_t i = 0; i < lines; ++i){
+			for(size_t i = 0; i < lines && file.good(); ++i){
 				std::getline(file, line);
 				for(unsigned char c : line){
 					put(pos, c);
diff --git a/src/Funge.cpp b/src/Funge.cpp
index ff1a453..28b8257 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -14,6 +14,7 @@
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 
 namespace Funge{
 
@@ -97,7 +98,13 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 		return EIO;
 	}
 
-	FungeUniverse* universe = FungeMultiverse::getInstance().create(stream, fmt, config);
+	FungeUniverse* universe = nullptr;
+	try{
+		universe = FungeMultiverse::getInstance().create(stream, fmt, config);
+	}catch(const std::logic_error&){
+		std::cerr << "Malformed file " << filepath << std::endl;
+		return EIO;
+	}
 	universe->createRunner(Vector{0}, Vector{1});
 
 	return 0;
-- 
2.43.0


From 550f603b7dacd7a98803ddde8344119e1e7f6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 58/62] fix: reflect on formats that do not fit the argument

---
 src/fingerprint/FingerprintFPRT.cpp | 44 +++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/fingerprint/FingerprintFPRT.cpp b/src/fingerprint/FingerprintFPRT.cpp
index 892a258..f7bbb46 100644
--- a/src/fingerprint/FingerprintFPRT.cpp
+++ b/src/fingerprint/FingerprintFPRT.cpp
@@ -9,6 +9,30 @@
 
 namespace Funge {
 
+/**
+ * Check that a format is safe to use with a single argument.
+ * @param fmt Format to check.
+ * @param lengths Length modifiers allowed.
+ * @param conversions Conversions allowed.
+ * @return true if the format has at most one conversion, and it is an allowed one.
+ */
+static bool checkFormat(const std::string& fmt, const std::string& lengths, const std::string& conversions){
+	size_t count = 0;
+	for(size_t i = fmt.find('%'); i != std::string::npos; i = fmt.find('%', i+1)){
+		i = fmt.find_first_not_of("-+ #0'123456789.", i+1);
+		if(i == std::string::npos){
+			return false;
+		}
+		if(fmt[i] != '%'){
+			i = fmt.find_first_not_of(lengths, i);
+			if(i == std::string::npos || conversions.find(fmt[i]) == std::string::npos || ++count > 1){
+				return false;
+			}
+		}
+	}
+	return true;
+}
+
 FingerprintFPRT::FingerprintFPRT(FungeRunner& r) :
 	Fingerprint(r, {'D', 'F', 'I', 'L', 'S'})
 {}
@@ -20,6 +44,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			double f = *reinterpret_cast<double*>(&n);
+			if(!checkFormat(fmt, "l", "aAeEfFgG")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
 			if(cnt < 0){
@@ -32,6 +60,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			double f = *reinterpret_cast<float*>(&n);
+			if(!checkFormat(fmt, "l", "aAeEfFgG")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
 			if(cnt < 0){
@@ -43,6 +75,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'I':{
 			stack_t i = stack.top().pop();
 			std::string fmt = popString(stack.top());
+			if(!checkFormat(fmt, "hljzt", "diouxXc")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), i);
 			if(cnt < 0){
@@ -56,6 +92,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 			stack_t h = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			stack_t n = (h << 32) | (l & 0xFFFFFFFF);
+			if(!checkFormat(fmt, "hljzt", "diouxXc")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), n);
 			if(cnt < 0){
@@ -67,6 +107,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'S':{
 			std::string s = popString(stack.top());
 			std::string fmt = popString(stack.top());
+			if(!checkFormat(fmt, "", "s")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), s.c_str());
 			if(cnt < 0){
-- 
2.43.0


From 27444583daa14178f84b5831a4520226410ceaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 59/62] fix: the remainder by -1 in Fish does not overflow

---
 src/FishStrategy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index ec51567..4d97e5b 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -238,7 +238,8 @@ FungeError FishStrategy::instructionModu(){
 	if(x == 0){
 		return ERROR_UNSPEC;
 	}
-	push(TOP, y % x);
+	// y%x overflows for the least integer
+	push(TOP, (x == -1) ? 0 : (y % x));
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 0830d1c18b40867f1f1f724dd0ff40c76d690610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 60/62] fix: removing the stack of a call leaves a register

---
 src/FishStrategy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 4d97e5b..c9e11f3 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -378,6 +378,10 @@ FungeError FishStrategy::instructionRemoveStack(){
 	}
 	stack.remove(selected);
 	regs.pop();
+	if(regs.empty()){
+		// The stack was made by a call, which has no register
+		regs.push({false, 0});
+	}
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 4ffe079bd5ff5f3437c3ca5b46e33e2ccf8b838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 61/62] fix: random numbers up to a negative or large one in
 FIXP

---
 src/fingerprint/FingerprintFIXP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintFIXP.cpp b/src/fingerprint/FingerprintFIXP.cpp
index e26854c..f124c48 100644
--- a/src/fingerprint/FingerprintFIXP.cpp
+++ b/src/fingerprint/FingerprintFIXP.cpp
@@ -126,7 +126,7 @@ double FingerprintFIXP::radToDeg(double deg){
 }
 
 stack_t FingerprintFIXP::random(stack_t max){
-	std::uniform_int_distribution<> dis(0, max);
+	std::uniform_int_distribution<stack_t> dis(std::min<stack_t>(0, max), std::max<stack_t>(0, max));
 	return dis(gen);
 }
 
-- 
2.43.0


From cba760ec6230704cc5c5695463cd86e64f68f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:22 +0000
Subject: [PATCH 62/62] fix: -l with letters beyond ASCII named another
 fingerprint

---
 src/Funge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 28b8257..5dfaf26 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -216,7 +216,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-l", 2) == 0){
 			std::string fing(&argv[a][2]);
-			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), uint64_t{0}, [](uint64_t f, char c){return (f << 8) + c;});
+			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), uint64_t{0}, [](uint64_t f, char c){return (f << 8) + static_cast<unsigned char>(c);});
 			funge_config.fingerprints.push_back(fingerprint);
 		}else if(strcmp(argv[a], "-g") == 0){
 			funge_config.mode |= FUNGE_MODE_DEBUG;
-- 
2.43.0

