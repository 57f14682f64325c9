From ebad69644eb63612d683fc592da0675bd9d16430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 001/111] fix: VM_Create must not write into the bytecode of
 the caller

The header was byte swapped in place, in a buffer that is passed as
const: an image in read-only memory crashed the host.
---
 src/vm/vm.c | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 88d6092..5a11004 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -274,18 +274,21 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Copy the data from the file input (bytecode) to the vm.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
- * @param[in] bytecode Pointer to bytecode.
+ * @param[out] headerCopy Header of .qvm bytecode in host byte order.
+ * @param[in] bytecode Pointer to bytecode (might be read-only).
  * @param[in] length Number of bytes in bytecode array.
- * @return Pointer to start/header of vm bytecode. */
-static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length);
+ * @return headerCopy or NULL if the bytecode can't be loaded. */
+static const vmHeader_t* VM_LoadQVM(vm_t* vm, vmHeader_t* headerCopy,
+                                    const uint8_t* bytecode, int length);
 
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] header Header of .qvm bytecode.
+ * @param[in] bytecode Pointer to bytecode.
  * @return 0 if everything is OK. -1 otherwise. */
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header);
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode);
 
 /** Run a function from the virtual machine with the interpreter (i.e. no JIT).
  * @param[in] vm Pointer to initialized virtual machine.
@@ -378,7 +381,8 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 
     Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
-    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length);
+    vmHeader_t        headerCopy;
+    const vmHeader_t* header = VM_LoadQVM(vm, &headerCopy, bytecode, length);
     if (!header)
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
@@ -409,7 +413,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     vm->compiled = 0; /* no JIT */
     if (!vm->compiled)
     {
-        if (VM_PrepareInterpreter(vm, header) != 0)
+        if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
             VM_Free(vm);
             return -1;
@@ -439,15 +443,16 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     return 0;
 }
 
-static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length)
+static const vmHeader_t* VM_LoadQVM(vm_t* vm, vmHeader_t* headerCopy,
+                                    const uint8_t* bytecode, int length)
 {
     int dataLength;
     int i;
-    const union {
-        const vmHeader_t* h;
-        const uint8_t*    v;
-    } header = {.v = bytecode };
+    const struct
+    {
+        vmHeader_t*    h;
+        const uint8_t* v;
+    } header = { headerCopy, bytecode };
 
     Com_Printf("Loading vm file %s...\n", vm->name);
 
@@ -458,6 +463,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
         return NULL;
     }
 
+    Com_Memcpy(headerCopy, bytecode, sizeof(*headerCopy));
     if (LittleLong(header.h->vmMagic) == VM_MAGIC)
     {
         /* byte swap the header */
@@ -691,14 +697,15 @@ static int LittleEndianToHost(const uint8_t b[4])
     return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode)
 {
-    int      op;
-    int      byte_pc;
-    int      int_pc;
-    uint8_t* code;
-    int      instruction;
-    int*     codeBase;
+    int            op;
+    int            byte_pc;
+    int            int_pc;
+    const uint8_t* code;
+    int            instruction;
+    int*           codeBase;
 
     vm->codeBase = (uint8_t*)Com_malloc(
         vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
@@ -709,14 +716,14 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, (uint8_t*)header + header->codeOffset,
+    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset,
                vm->codeLength);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
     int_pc = byte_pc = 0;
     instruction      = 0;
-    code             = (uint8_t*)header + header->codeOffset;
+    code             = bytecode + header->codeOffset;
     codeBase         = (int*)vm->codeBase;
 
     /* Copy and expand instructions to words while
-- 
2.43.0


From b4627f3cb31f6a4e4e0dc1a10e4794d1baf4cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 002/111] fix: header check must not overflow

Offsets and lengths near INT_MAX wrapped around in the sums and passed
the check, VM_Create then copied from far outside of the image.
---
 src/vm/vm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 5a11004..a6b87f8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -478,9 +478,12 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, vmHeader_t* headerCopy,
             header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
             header.h->instructionCount <= 0 ||
             header.h->bssLength > VM_MAX_BSS_LENGTH ||
-            header.h->codeOffset + header.h->codeLength > length ||
-            header.h->dataOffset + header.h->dataLength + header.h->litLength >
-                length)
+            header.h->codeOffset > length ||
+            header.h->codeLength > length - header.h->codeOffset ||
+            header.h->dataOffset > length ||
+            header.h->dataLength > length - header.h->dataOffset ||
+            header.h->litLength >
+                length - header.h->dataOffset - header.h->dataLength)
         {
             Com_Printf("Warning: %s has bad header\n", vm->name);
             return NULL;
-- 
2.43.0


From 3a926b8db248b945d711689e0a20d94646b30612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 003/111] fix: the loader must not run past the end of the code
 section

An instruction count larger than the number of instructions, or a last
instruction without its operand, read past the end of the image and
wrote past the end of the expanded code.
---
 src/vm/vm.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index a6b87f8..e3b7251 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -736,15 +736,16 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         vm->instructionPointers[instruction] = int_pc;
         instruction++;
 
-        op               = (int)code[byte_pc];
-        codeBase[int_pc] = op;
-        if (byte_pc > header->codeLength)
+        if (byte_pc >= header->codeLength)
         {
             Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
-                      "VM_PrepareInterpreter: pc > header->codeLength");
+                      "VM_PrepareInterpreter: pc >= header->codeLength");
             return -1;
         }
 
+        op               = (int)code[byte_pc];
+        codeBase[int_pc] = op;
+
         byte_pc++;
         int_pc++;
 
@@ -772,11 +773,23 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_GTF:
         case OP_GEF:
         case OP_BLOCK_COPY:
+            if (byte_pc > header->codeLength - 4)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: operand is cut off");
+                return -1;
+            }
             codeBase[int_pc] = LittleEndianToHost(&code[byte_pc]);
             byte_pc += 4;
             int_pc++;
             break;
         case OP_ARG:
+            if (byte_pc >= header->codeLength)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: operand is cut off");
+                return -1;
+            }
             codeBase[int_pc] = (int)code[byte_pc];
             byte_pc++;
             int_pc++;
-- 
2.43.0


From f432c022492177ba951c321790d29a3376f615d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 004/111] fix: a branch to the instruction number
 instructionCount is invalid

It was looked up one past the end of the instruction pointer table.
---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index e3b7251..13c6d71 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -836,7 +836,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_LEF:
         case OP_GTF:
         case OP_GEF:
-            if (codeBase[int_pc] < 0 || codeBase[int_pc] > vm->instructionCount)
+            if (codeBase[int_pc] < 0 || codeBase[int_pc] >= vm->instructionCount)
             {
                 Com_Error(vm->lastError = VM_JUMP_TO_INVALID_INSTRUCTION,
                           "VM_PrepareInterpreter: Jump to invalid "
-- 
2.43.0


From 10e0b1e93e902b7524143b7a450b75dc32872cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 005/111] fix: mask the program stack like any other memory
 access

Bytecode moves the program stack freely with OP_ENTER and OP_LEAVE (and
an image may be smaller than the arguments of vmMain). The call frame,
return addresses and system call arguments were then read and written
outside of the memory of the vm.
---
 src/vm/vm.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 13c6d71..3152a7a 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -928,11 +928,12 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 
     for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)
     {
-        *(int*)&image[programStack + 8 + arg * 4] = args[arg];
+        *(int*)&image[(programStack + 8 + arg * 4) & dataMask] = args[arg];
     }
 
-    *(int*)&image[programStack + 4] = 0; /* return stack */
-    *(int*)&image[programStack] = -1;    /* will terminate the loop on return */
+    *(int*)&image[(programStack + 4) & dataMask] = 0; /* return stack */
+    /* will terminate the loop on return */
+    *(int*)&image[programStack & dataMask] = -1;
 
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
@@ -1098,7 +1099,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             DISPATCH();
         goto_OP_CALL:
             /* save current program counter */
-            *(int*)&image[programStack] = programCounter;
+            *(int*)&image[programStack & dataMask] = programCounter;
 
             /* jump to the location on the stack */
             programCounter = r0;
@@ -1116,38 +1117,34 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save the stack to allow recursive VM entry */
                 vm->programStack = programStack - 4;
 #ifdef DEBUG_VM
-                int stomped = *(int*)&image[programStack + 4];
+                int stomped = *(int*)&image[(programStack + 4) & dataMask];
 #endif
-                *(int*)&image[programStack + 4] = -1 - programCounter;
+                *(int*)&image[(programStack + 4) & dataMask] =
+                    -1 - programCounter;
 
                 /* the vm has ints on the stack, we expect
                    pointers so we might have to convert it */
-                if (sizeof(intptr_t) != sizeof(int))
                 {
                     intptr_t argarr[MAX_VMSYSCALL_ARGS];
-                    int*     imagePtr = (int*)&image[programStack];
                     int      i;
                     for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)
                     {
-                        argarr[i] = *(++imagePtr);
+                        argarr[i] = *(int*)&image[(programStack + 4 + i * 4) &
+                                                  dataMask];
                     }
                     r = vm->systemCall(vm, argarr);
                 }
-                else
-                {
-                    r = vm->systemCall(vm, (intptr_t*)&image[programStack + 4]);
-                }
 
 #ifdef DEBUG_VM
                 /* this is just our stack frame pointer, only needed
                    for debugging */
-                *(int*)&image[programStack + 4] = stomped;
+                *(int*)&image[(programStack + 4) & dataMask] = stomped;
 #endif
 
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack];
+                programCounter      = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1185,7 +1182,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             /* save old stack frame for debugging traces */
-            *(int*)&image[programStack + 4] = programStack + v1;
+            *(int*)&image[(programStack + 4) & dataMask] = programStack + v1;
             if (vm_debugLevel)
             {
                 Com_Printf("%s%i---> %s\n", VM_Indent(vm), opStackOfs,
@@ -1208,7 +1205,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             programStack += v1;
 
             /* grab the saved program counter */
-            programCounter = *(int*)&image[programStack];
+            programCounter = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             if (vm_debugLevel)
@@ -1955,8 +1952,9 @@ static void VM_StackTrace(vm_t* vm, int programCounter, int programStack)
     do
     {
         Com_Printf("%s\n", VM_ValueToSymbol(vm, programCounter));
-        programStack   = *(int*)&vm->dataBase[programStack + 4];
-        programCounter = *(int*)&vm->dataBase[programStack];
+        programStack =
+            *(int*)&vm->dataBase[(programStack + 4) & vm->dataMask];
+        programCounter = *(int*)&vm->dataBase[programStack & vm->dataMask];
     } while (programCounter != -1 && ++count < 32);
 }
 
-- 
2.43.0


From 7c90253210af4c5a2334c86004758f117d0181fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 006/111] fix: code must not be executed outside of the code
 section

Bytecode running past its last instruction, returning to an overwritten
return address (possibly the operand of an instruction) or overwriting
the return address in a system call was executing whatever is found in
and behind the code allocation.
---
 src/vm/vm.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 3152a7a..4bf219e 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -711,7 +711,8 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
     int*           codeBase;
 
     vm->codeBase = (uint8_t*)Com_malloc(
-        vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
+        (vm->codeLength + 1) * 4, vm,
+        VM_ALLOC_CODE_SEC); /* we're now int aligned, plus an OP_UNDEF */
     if (!vm->codeBase)
     {
         Com_Error(VM_MALLOC_FAILED,
@@ -804,6 +805,9 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
             break;
         }
     }
+    /* stop bytecode running past its last instruction */
+    Com_Memset(codeBase + int_pc, 0,
+               (vm->codeLength + 1 - int_pc) * sizeof(*codeBase));
     int_pc      = 0;
     instruction = 0;
 
@@ -1114,6 +1118,8 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                                opStackOfs, -1 - programCounter);
                 }
 #endif
+                /* the system call might write to the program stack */
+                v1 = *(int*)&image[programStack & dataMask];
                 /* save the stack to allow recursive VM entry */
                 vm->programStack = programStack - 4;
 #ifdef DEBUG_VM
@@ -1144,7 +1150,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack & dataMask];
+                programCounter      = v1;
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1225,6 +1231,14 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                           "VM program counter out of range in OP_LEAVE");
                 return -1;
             }
+            else if (programCounter < 1 ||
+                     codeImage[programCounter - 1] != OP_CALL)
+            {
+                /* not a return address, might not even be an instruction */
+                Com_Error(vm->lastError = VM_JUMP_TO_INVALID_INSTRUCTION,
+                          "OP_LEAVE without return address");
+                return -1;
+            }
             DISPATCH();
 
         /*
-- 
2.43.0


From c23e8cfc7c489be18248263fed8840937c9785a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 007/111] fix: VM_Call restores the program stack after an
 error

A call that ended in an error after a system call leaked its part of the
program stack: after some failing calls the vm ran out of stack.
---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 4bf219e..1164bd8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -536,6 +536,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, vmHeader_t* headerCopy,
 intptr_t VM_Call(vm_t* vm, int command, ...)
 {
     intptr_t r;
+    int      programStack;
     int      args[MAX_VMMAIN_ARGS];
     va_list  ap;
     int      i;
@@ -561,9 +562,12 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     }
     va_end(ap);
 
+    programStack = vm->programStack;
     ++vm->callLevel;
     r = VM_CallInterpreted(vm, args);
     --vm->callLevel;
+    /* also after a failed call that left from within a system call */
+    vm->programStack = programStack;
 
     return r;
 }
-- 
2.43.0


From 074ec7da4a880120905156e0f80a665c782b9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 008/111] fix: range checks must not wrap around

Huge (negative) lengths passed VM_MemoryRangeValid and OP_BLOCK_COPY as
address + length wrapped around, so did 64 bit addresses cut to 32 bit.
---
 src/vm/vm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1164bd8..6441cd7 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -659,9 +659,10 @@ int VM_MemoryRangeValid(intptr_t vmAddr, size_t len, const vm_t* vm)
     {
         return -1;
     }
-    const unsigned dest     = vmAddr;
-    const unsigned dataMask = vm->dataMask;
-    if ((dest & dataMask) != dest || ((dest + len) & dataMask) != dest + len)
+    const uintptr_t dest     = vmAddr;
+    const unsigned  dataMask = vm->dataMask;
+    if (len > dataMask || (dest & dataMask) != dest ||
+        ((dest + len) & dataMask) != dest + len)
     {
         Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
         return -1;
@@ -687,7 +688,7 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
 {
     unsigned int dataMask = vm->dataMask;
 
-    if ((dest & dataMask) != dest || (src & dataMask) != src ||
+    if (n > dataMask || (dest & dataMask) != dest || (src & dataMask) != src ||
         ((dest + n) & dataMask) != dest + n ||
         ((src + n) & dataMask) != src + n)
     {
-- 
2.43.0


From 5c77330702ea3e5727cfb43df391ce9d14a9ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 009/111] fix: integer division must not crash the host

Bytecode dividing by zero, or INT_MIN by -1, raised SIGFPE in the host.
Report an error for the first, wrap around for the second.
---
 src/vm/vm.c | 29 +++++++++++++++++++++++++++--
 src/vm/vm.h |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 6441cd7..a421cb8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1483,18 +1483,43 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             opStack[opStackOfs] = r1 - r0;
             DISPATCH();
         goto_OP_DIVI:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Integer division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 / r0;
+            /* -1: INT_MIN / -1 traps on some hosts */
+            opStack[opStackOfs] = r0 == -1 ? (int)(0u - r1) : r1 / r0;
             DISPATCH();
         goto_OP_DIVU:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Integer division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) / ((unsigned)r0);
             DISPATCH();
         goto_OP_MODI:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Integer division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 % r0;
+            opStack[opStackOfs] = r0 == -1 ? 0 : r1 % r0;
             DISPATCH();
         goto_OP_MODU:
+            if (r0 == 0)
+            {
+                Com_Error(vm->lastError = VM_DIVISION_BY_ZERO,
+                          "Integer division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) % ((unsigned)r0);
             DISPATCH();
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 959e2eb..e874dd9 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -77,6 +77,7 @@ typedef enum {
     VM_MALLOC_FAILED               = -13, /**< Not enough memory */
     VM_BAD_INSTRUCTION             = -14, /**< Unknown OP code in bytecode */
     VM_NOT_LOADED                  = -15, /**< VM not loaded */
+    VM_DIVISION_BY_ZERO            = -16, /**< Integer division by zero */
 } vmErrorCode_t;
 
 /** VM alloc type. This is just an information passed to the host malloc
-- 
2.43.0


From 6b1f51af530d86ca720bd616597060ec84a7d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 010/111] fix: OP_BLOCK_COPY with overlapping blocks

The blocks are chosen by the bytecode, memcpy must not be called with
blocks that overlap (some C libraries end the process).
---
 src/vm/vm.c | 2 +-
 src/vm/vm.h | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index a421cb8..c270a21 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -697,7 +697,7 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
         return;
     }
 
-    Com_Memcpy(vm->dataBase + dest, vm->dataBase + src, n);
+    Com_Memmove(vm->dataBase + dest, vm->dataBase + src, n);
 }
 
 static int LittleEndianToHost(const uint8_t b[4])
diff --git a/src/vm/vm.h b/src/vm/vm.h
index e874dd9..11f54d3 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -49,6 +49,9 @@
 /** Redirect memcpy() calls with this macro */
 #define Com_Memcpy memcpy
 
+/** Redirect memmove() calls with this macro */
+#define Com_Memmove memmove
+
 /** Translate from virtual machine memory to real machine memory. */
 #define VMA(x, vm) VM_ArgPtr(args[x], vm)
 
-- 
2.43.0


From 0d071d258599f66634eb4beed0d8426a7494a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 011/111] fix: keep lastError after a failed VM_Create

VM_Free cleared it, and two failed allocations did not set it.
---
 src/vm/vm.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c270a21..ec714f6 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -281,6 +281,10 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, vmHeader_t* headerCopy,
                                     const uint8_t* bytecode, int length);
 
+/** Helper function for VM_Create: Free the vm, but keep vm->lastError.
+ * @param[in,out] vm Pointer to virtual machine that could not be created. */
+static void VM_FreeKeepError(vm_t* vm);
+
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
@@ -387,7 +391,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
         Com_Error(vm->lastError, "Failed to load bytecode");
-        VM_Free(vm);
+        VM_FreeKeepError(vm);
         return -1;
     }
 
@@ -404,7 +408,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         vm->lastError = VM_MALLOC_FAILED;
         Com_Error(vm->lastError,
                   "Instr. pointer malloc failed: out of memory?");
-        VM_Free(vm);
+        VM_FreeKeepError(vm);
         return -1;
     }
 
@@ -415,7 +419,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     {
         if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
-            VM_Free(vm);
+            VM_FreeKeepError(vm);
             return -1;
         }
     }
@@ -443,6 +447,14 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     return 0;
 }
 
+static void VM_FreeKeepError(vm_t* vm)
+{
+    const vmErrorCode_t lastError = vm->lastError;
+
+    VM_Free(vm);
+    vm->lastError = lastError;
+}
+
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, vmHeader_t* headerCopy,
                                     const uint8_t* bytecode, int length)
 {
@@ -513,7 +525,8 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, vmHeader_t* headerCopy,
     vm->dataMask  = dataLength - 1;
     if (vm->dataBase == NULL)
     {
-        Com_Error(VM_MALLOC_FAILED, "Data malloc failed: out of memory?\n");
+        Com_Error(vm->lastError = VM_MALLOC_FAILED,
+                  "Data malloc failed: out of memory?\n");
         return NULL;
     }
     /* make sure data section is always initialized with 0
@@ -720,7 +733,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         VM_ALLOC_CODE_SEC); /* we're now int aligned, plus an OP_UNDEF */
     if (!vm->codeBase)
     {
-        Com_Error(VM_MALLOC_FAILED,
+        Com_Error(vm->lastError = VM_MALLOC_FAILED,
                   "Data pointer malloc failed: out of memory?");
         return -1;
     }
-- 
2.43.0


From d21764fa43ece06fa445bb69135f4c8306a9525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 012/111] fix: bytecode must not read leftovers from the host
 stack

The operand stack was not initialized: OP_PUSH, or an instruction with
too few operands, read values of the host (e.g. pointers).
---
 src/vm/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index ec714f6..1a8f7dc 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -960,6 +960,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
        not corrupt anything */
+    Com_Memset(stack, 0, sizeof(stack)); /* don't expose the host stack */
     opStack    = PADP(stack, 16);
     *opStack   = 0x0000BEEF;
     opStackOfs = 0;
-- 
2.43.0


From 924663ea3bc1790a4aa02c8a9ba714ebf0236698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 013/111] fix: memory of the map file (DEBUG_VM)

The text was not terminated, the parser read past its end. It was
allocated with malloc, but released with Com_free.
---
 src/vm/vm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1a8f7dc..0d1741e 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1754,7 +1754,8 @@ uint8_t* loadImage(const char* filepath, int* size)
     }
     rewind(f);
 
-    image = (uint8_t*)malloc(sz);
+    /* terminate the text with a 0 */
+    image = (uint8_t*)Com_malloc(sz + 1, NULL, VM_ALLOC_DEBUG);
     if (!image)
     {
         fclose(f);
@@ -1763,10 +1764,11 @@ uint8_t* loadImage(const char* filepath, int* size)
 
     if (fread(image, 1, sz, f) != (size_t)sz)
     {
-        free(image);
+        Com_free(image, NULL, VM_ALLOC_DEBUG);
         fclose(f);
         return NULL;
     }
+    image[sz] = 0;
 
     fclose(f);
     *size = sz;
-- 
2.43.0


From 6ebf4a63899c0fd19eeed42058e9ec881e97aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 014/111] fix: map file (DEBUG_VM) with an unterminated string

The parser continued behind the end of the text.
---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 0d1741e..9395cea 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1877,7 +1877,7 @@ static char* COM_Parse(char** data_p)
             if (c == '\"' || !c)
             {
                 com_token[len] = 0;
-                *data_p        = (char*)data;
+                *data_p        = (char*)(c ? data : data - 1);
                 return com_token;
             }
             if (c == '\n')
-- 
2.43.0


From 0230351d86cc7356192130dc9490062c982f5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 015/111] fix: q3asm exits with a failure status for 256
 errors, too

The number of errors was the exit status, of which the caller sees eight bits.
---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 00982df..6d89333 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1778,5 +1778,5 @@ int main(int argc, char** argv)
     end = I_FloatTime();
     report("%5.0f seconds elapsed\n", end - start);
 
-    return errorCount;
+    return errorCount != 0; // the exit status has only eight bits
 }
-- 
2.43.0


From e4b8c46791680d30a2dd332e4db18e3fd9546995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 016/111] fix: q3asm hash table index out of range

abs() of the hash value 0x80000000 is negative, and -b accepted 0 and
negative numbers of buckets.
---
 q3asm/q3asm.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 6d89333..3c9d9f2 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -255,11 +255,11 @@ static hashtable_t* hashtable_new(int buckets)
 
 /* No destroy/destructor.  No need. */
 
-static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
+static void hashtable_add(hashtable_t* H, unsigned hashvalue, void* datum)
 {
     hashchain_t *hc, **hb;
 
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = hashvalue % H->buckets;
     hb        = &(H->table[hashvalue]);
     if (*hb == 0)
     {
@@ -285,9 +285,9 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
     }
 }
 
-static hashchain_t* hashtable_get(hashtable_t* H, int hashvalue)
+static hashchain_t* hashtable_get(hashtable_t* H, unsigned hashvalue)
 {
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = hashvalue % H->buckets;
     return (H->table[hashvalue]);
 }
 
@@ -338,12 +338,12 @@ static void hashtable_stats(hashtable_t* H)
 /* Kludge. */
 /* Check if symbol already exists. */
 /* Returns 0 if symbol does NOT already exist, non-zero otherwise. */
-static int hashtable_symbol_exists(hashtable_t* H, int hash, char* sym)
+static int hashtable_symbol_exists(hashtable_t* H, unsigned hash, char* sym)
 {
     hashchain_t* hc;
     symbol_t*    s;
 
-    hash = (abs(hash) % H->buckets);
+    hash = hash % H->buckets;
     hc   = H->table[hash];
     if (hc == 0)
     {
@@ -1716,6 +1716,10 @@ int main(int argc, char** argv)
             }
             i++;
             symtablelen = atoiNoCap(argv[i]);
+            if (symtablelen <= 0)
+            {
+                Error("-b requires a positive number");
+            }
             continue;
         }
 
-- 
2.43.0


From 939c921cb1c73fbe0824714ac7e6df4daf1ed7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 017/111] fix: q3asm does not loop forever on a line that is
 too long

---
 q3asm/q3asm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 3c9d9f2..6b59af1 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -691,8 +691,8 @@ static char* ExtractLine(char* data)
 
     if ((p - q) >= MAX_LINE_LENGTH)
     {
-        CodeError("MAX_LINE_LENGTH");
-        return data;
+        CodeError("MAX_LINE_LENGTH\n");
+        return (*p == '\n') ? p + 1 : p; /* skip the line */
     }
 
     memcpy(lineBuffer, data, (p - data));
-- 
2.43.0


From 6ae83d77bfb4e516d4bccd932ef32640445085e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 018/111] fix: q3asm sorts symbols with large values correctly

The difference of two values can overflow.
---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 6b59af1..3186a0e 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -372,7 +372,7 @@ static int symlist_cmp(const void* e1, const void* e2)
     a = *(const symbol_t**)e1;
     b = *(const symbol_t**)e2;
     // crumb("Symbol comparison (1) %d  to  (2) %d\n", a->value, b->value);
-    return (a->value - b->value);
+    return (a->value > b->value) - (a->value < b->value);
 }
 
 /*
-- 
2.43.0


From b2cff12b6bd0197fe50f5b1456dc1873a6a60267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 019/111] fix: q3asm lists the stack symbols in the bss segment
 of the map

---
 q3asm/q3asm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 3186a0e..129fa2b 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1577,6 +1577,7 @@ static void Assemble(void)
     }
 
     // reserve the stack in bss
+    currentSegment = &segment[BSSSEG];
     DefineSymbol("_stackStart", segment[BSSSEG].imageUsed);
     segment[BSSSEG].imageUsed += stackSize;
     DefineSymbol("_stackEnd", segment[BSSSEG].imageUsed);
-- 
2.43.0


From 94f18566fbfed0e67a859a4afbe7900288037da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 020/111] fix: q3asm starts both passes in the same state

Without a segment directive in front of the first symbol the first pass
dereferenced a NULL segment, and the second pass continued with the last
segment of the first one.
---
 q3asm/q3asm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 129fa2b..9ad9c81 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1549,6 +1549,8 @@ static void Assemble(void)
         segment[DATASEG].imageUsed =
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
+        currentSegment   = &segment[CODESEG];
+        currentArgOffset = 0;
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From 8251ffc5a2227326372156403dc01750e18e6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 021/111] fix: q3asm keeps initialized structs with char and
 int members in one piece

Each char value moved the label of the whole object to the lit segment and
each int value moved it back to the data segment, so that the parts ended up
in different places and the label pointed at the last of them. A value
without any label crashed q3asm. Now the first value behind a label selects
the segment for all of the object, aligned as the compiler expects.
---
 q3asm/q3asm.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 9ad9c81..d946e2b 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -176,6 +176,7 @@ options_t options = { 0 };
 
 symbol_t* symbols;
 symbol_t* lastSymbol = 0; /* Most recent symbol defined. */
+qboolean  labelPending;   /* A label was defined and nothing emitted since. */
 
 #define MAX_ASM_FILES 256
 int   numAsmFiles;
@@ -842,6 +843,9 @@ initialized strng variables are put in the data segment.
 I can change segments here, but I also need to fixup the
 label that was just defined
 
+The first value decides for all of them: a label with more values
+(a struct with char and int members) stays in one piece.
+
 Note that the lit segment is read-write in the VM, so strings
 aren't read only as in some architectures.
 ==============
@@ -852,9 +856,15 @@ static void HackToSegment(segmentName_t seg)
     {
         return;
     }
+    if (!labelPending && (currentSegment == &segment[DATASEG] ||
+                          currentSegment == &segment[LITSEG]))
+    {
+        return;
+    }
 
-    currentSegment = &segment[seg];
-    if (passNumber == 0)
+    currentSegment            = &segment[seg];
+    currentSegment->imageUsed = (currentSegment->imageUsed + 3) & ~3;
+    if (passNumber == 0 && labelPending)
     {
         lastSymbol->segment = currentSegment;
         lastSymbol->value   = currentSegment->imageUsed;
@@ -975,6 +985,7 @@ ASM(PROC)
     if (!strcmp(token, "proc"))
     {
         STAT("PROC");
+        labelPending = qfalse;
         Parse(); // function name
         strcpy(name, token);
 
@@ -1031,6 +1042,7 @@ ASM(ADDRESS)
 
         /* Addresses are 32 bits wide, and therefore go into data segment. */
         HackToSegment(DATASEG);
+        labelPending = qfalse;
         EmitInt(currentSegment, v);
         if (passNumber == 1 && token[0] == '$') // crude test for labels
             EmitInt(&segment[JTRGSEG], v);
@@ -1129,6 +1141,7 @@ ASM(EQU)
     if (!strcmp(token, "equ"))
     {
         STAT("EQU");
+        labelPending = qfalse;
         Parse();
         strcpy(name, token);
         Parse();
@@ -1158,7 +1171,8 @@ ASM(SKIP)
     if (!strcmp(token, "skip"))
     {
         STAT("SKIP");
-        v = ParseValue();
+        v            = ParseValue();
+        labelPending = qfalse;
         currentSegment->imageUsed += v;
         return 1;
     }
@@ -1190,6 +1204,8 @@ ASM(BYTE)
             CodeError("16 bit initialized data not supported");
         }
 
+        labelPending = qfalse;
+
         // emit little endien
         for (i = 0; i < v; i++)
         {
@@ -1219,6 +1235,7 @@ ASM(LABEL)
         {
             DefineSymbol(token, currentSegment->imageUsed);
         }
+        labelPending = qtrue;
         return 1;
     }
     return 0;
@@ -1551,6 +1568,7 @@ static void Assemble(void)
         instructionCount = 0;
         currentSegment   = &segment[CODESEG];
         currentArgOffset = 0;
+        labelPending     = qfalse;
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From ac239a296405a1ce6d0719af7b16d24c585a59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 022/111] fix: q3asm checks the operands of align and skip

A negative or large size moved the segment out of its buffer, which was then
written to or read beyond its end.
---
 q3asm/q3asm.c | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index d946e2b..43a719e 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -178,6 +178,8 @@ symbol_t* symbols;
 symbol_t* lastSymbol = 0; /* Most recent symbol defined. */
 qboolean  labelPending;   /* A label was defined and nothing emitted since. */
 
+#define VM_MAX_BSS_SIZE 0x40000000 /* not stored in the image */
+
 #define MAX_ASM_FILES 256
 int   numAsmFiles;
 char* asmFiles[MAX_ASM_FILES];
@@ -541,6 +543,35 @@ static void EmitInt(segment_t* seg, int v)
     seg->imageUsed += 4;
 }
 
+/*
+============
+SkipBytes
+
+The bss segment is not part of the image
+============
+*/
+static void SkipBytes(int count)
+{
+    int room = VM_MAX_IMAGE_SIZE - currentSegment->imageUsed;
+
+    if (currentSegment == &segment[BSSSEG])
+    {
+        room = VM_MAX_BSS_SIZE - currentSegment->imageUsed;
+    }
+    if (count < 0)
+    {
+        CodeError("Bad size: %i\n", count);
+    }
+    else if (count > room)
+    {
+        Error("VM_MAX_IMAGE_SIZE");
+    }
+    else
+    {
+        currentSegment->imageUsed += count;
+    }
+}
+
 /*
 ============
 DefineSymbol
@@ -1158,8 +1189,12 @@ ASM(ALIGN)
     {
         STAT("ALIGN");
         v = ParseValue();
-        currentSegment->imageUsed =
-            (currentSegment->imageUsed + v - 1) & ~(v - 1);
+        if (v <= 0 || (v & (v - 1)))
+        {
+            CodeError("Bad alignment: %i\n", v);
+            return 1;
+        }
+        SkipBytes(-currentSegment->imageUsed & (v - 1));
         return 1;
     }
     return 0;
@@ -1173,7 +1208,7 @@ ASM(SKIP)
         STAT("SKIP");
         v            = ParseValue();
         labelPending = qfalse;
-        currentSegment->imageUsed += v;
+        SkipBytes(v);
         return 1;
     }
     return 0;
-- 
2.43.0


From 28f642172f1c8a920bd5d5aff5485c4323b654a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 023/111] fix: q3asm checks the number of files and the length
 of their names

More than 256 files or a name of 1024 characters overflowed static buffers.
---
 q3asm/q3asm.c | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 43a719e..59b716d 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1647,6 +1647,41 @@ static void Assemble(void)
     }
 }
 
+/*
+=============
+CheckFileName
+
+Names are copied to buffers of MAX_OS_PATH bytes, with an extension added
+=============
+*/
+static const char* CheckFileName(const char* name)
+{
+    if (!name[0])
+    {
+        Error("Empty file name");
+    }
+    if (strlen(name) >= MAX_OS_PATH - 8)
+    {
+        Error("File name too long: %s", name);
+    }
+    return name;
+}
+
+/*
+=============
+AddAsmFile
+=============
+*/
+static void AddAsmFile(const char* name)
+{
+    if (numAsmFiles >= MAX_ASM_FILES)
+    {
+        Error("More than %i files to assemble", MAX_ASM_FILES);
+    }
+    asmFileNames[numAsmFiles] = copystring(CheckFileName(name));
+    numAsmFiles++;
+}
+
 /*
 =============
 ParseOptionFile
@@ -1658,7 +1693,7 @@ static void ParseOptionFile(const char* filename)
     char  expanded[MAX_OS_PATH];
     char *text, *text_p;
 
-    strcpy(expanded, filename);
+    strcpy(expanded, CheckFileName(filename));
     DefaultExtension(expanded, ".q3asm");
     LoadFile(expanded, (void**)&text);
     if (!text)
@@ -1676,13 +1711,12 @@ static void ParseOptionFile(const char* filename)
             text_p = COM_Parse(text_p);
             if (text_p)
             {
-                strcpy(outputFilename, com_token);
+                strcpy(outputFilename, CheckFileName(com_token));
             }
             continue;
         }
 
-        asmFileNames[numAsmFiles] = copystring(com_token);
-        numAsmFiles++;
+        AddAsmFile(com_token);
     }
 }
 
@@ -1748,7 +1782,7 @@ int main(int argc, char** argv)
             }
             /* Timbo of Tremulous pointed out -o not working; stock ID q3asm
              * folded in the change. Yay. */
-            strcpy(outputFilename, argv[i + 1]);
+            strcpy(outputFilename, CheckFileName(argv[i + 1]));
             i++;
             continue;
         }
@@ -1809,8 +1843,7 @@ int main(int argc, char** argv)
     // the rest of the command line args are asm files
     for (; i < argc; i++)
     {
-        asmFileNames[numAsmFiles] = copystring(argv[i]);
-        numAsmFiles++;
+        AddAsmFile(argv[i]);
     }
     // In some case it Segfault without this check
     if (numAsmFiles == 0)
-- 
2.43.0


From fcf4a2918431753f0b174276cfe6da7f24003769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:52 +0000
Subject: [PATCH 024/111] fix: q3asm list files with long words or a missing
 quote

Such a word was copied beyond the end of com_token.
---
 q3asm/cmdlib.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index 592f89e..10fddb6 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -491,6 +491,14 @@ skipwhite:
         do
         {
             c = *data++;
+            if (c == 0)
+            {
+                Error("Missing closing quote");
+            }
+            if (len >= (int)sizeof(com_token) - 1)
+            {
+                Error("Token too long");
+            }
             if (c == '\"')
             {
                 com_token[len] = 0;
@@ -513,6 +521,10 @@ skipwhite:
     // parse a regular word
     do
     {
+        if (len >= (int)sizeof(com_token) - 1)
+        {
+            Error("Token too long");
+        }
         com_token[len] = c;
         data++;
         len++;
-- 
2.43.0


From be352ffd0a6a375220f080fcacc3c8f43b6f2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:54 +0000
Subject: [PATCH 025/111] fix: lcc sign extends signed bit fields of const
 structs and in long expressions

The extraction of a bit field tested for the type of the expression to be
exactly int. With const int or long it did not extend the sign, or stopped
with a failed assertion.
---
 lcc/src/dag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 420cbe7..6ff184e 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -349,7 +349,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      else
 		      	p = node(tp->op == INDIR+B ? tp->op : op, l, NULL, NULL); } break;
 	case FIELD: { Tree q = tp->kids[0];
-		      if (tp->type == inttype) {
+		      if (!isunsigned(tp->u.field->type)) {
 		      	long n = fieldleft(tp->u.field);
 		      	q = shtree(RSH,
 		      		shtree(LSH, q, cnsttree(inttype, n)),
-- 
2.43.0


From a3f7204340aee11a72311c44211d7e604e3cdc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 026/111] fix: lcc masks values that are converted to unsigned
 char or unsigned short

q3asm ignores these conversions, so (unsigned char)300 kept the value 300
unless it was stored in memory.
---
 lcc/src/bytecode.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 871056a..99aa019 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -113,6 +113,11 @@ static void dumptree(Node p) {
 		assert(p->syms[0]);
 		dumptree(p->kids[0]);
 		print("%s %d\n", opname(p->op), p->syms[0]->u.c.v.i);
+		// widening an unsigned char or short: a load has cleared the
+		// high bits, the result of a narrowing conversion still has them
+		if (generic(p->op) == CVU && generic(p->kids[0]->op) != INDIR
+		&& p->syms[0]->u.c.v.i < 4)
+			print("CNSTI4 %d\nBANDI4\n", p->syms[0]->u.c.v.i == 1 ? 255 : 65535);
 		return;
 	case ARG: case BCOM: case NEG: case INDIR: case JUMP: case RET:
 		assert(p->kids[0]);
-- 
2.43.0


From d9907c61e0426709a7e2bebb9bbfd3ce5052e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:08 +0000
Subject: [PATCH 027/111] fix: lcc compares bit fields that fill a whole int
 with zero

---
 lcc/src/c.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/c.h b/lcc/src/c.h
index 43bec08..4f477ff 100644
--- a/lcc/src/c.h
+++ b/lcc/src/c.h
@@ -61,7 +61,8 @@
 #define fieldright(p) ((p)->lsb - 1)
 #define fieldleft(p)  (8*(p)->type->size - \
                         fieldsize(p) - fieldright(p))
-#define fieldmask(p)  (~(~(unsigned)0<<fieldsize(p)))
+#define fieldmask(p)  (fieldsize(p) < 8*(int)sizeof (unsigned) ? \
+                        ~(~(unsigned)0<<fieldsize(p)) : ~(unsigned)0)
 typedef struct node *Node;
 
 typedef struct list *List;
-- 
2.43.0


From 13cd2518fcc16c2966d0503ec291c450b3ca42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:22 +0000
Subject: [PATCH 028/111] fix: lcc takes the value of a subexpression from a
 branch that was not taken

---
 lcc/src/dag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 6ff184e..6354728 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -134,11 +134,14 @@ Node listnodes(Tree tp, int tlab, int flab) {
  } break;
 	case NOT:   { return listnodes(tp->kids[0], flab, tlab); }
 	case COND:  { Tree q = tp->kids[1];
+		      int save = depth;
 		      assert(tlab == 0 && flab == 0);
 		      if (tp->u.sym)
 		      	addlocal(tp->u.sym);
 		      flab = genlabel(2);
+		      depth = 0;	/* values may be pending: && and || have to reset */
 		      listnodes(tp->kids[0], 0, flab);
+		      depth = save;
 		      assert(q && q->op == RIGHT);
 		      reset();
 		      listnodes(q->kids[0], 0, 0);
-- 
2.43.0


From 3b20f2b7c4ec778192dbcedf1911e428423e5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 029/111] fix: lcc initializes bit fields with the bytes of the
 word in reverse order

---
 lcc/src/bytecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 99aa019..8d4ebd0 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -336,7 +336,7 @@ Interface bytecodeIR = {
 	{4, 4, 0},	/* long double */		// JDC: don't ever emit 8 byte double code
 	{4, 4, 0},	/* T* */
 	{0, 4, 0},	/* struct */
-	0,		/* little_endian */
+	1,		/* little_endian */
 	0,		/* mulops_calls */
 	0,		/* wants_callb */
 	0,		/* wants_argb */
-- 
2.43.0


From b05b3ae88199d2fe50a538edb55e0a8510e799cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 030/111] fix: lcc lets the initializer of a local char array
 overwrite its neighbours

---
 lcc/src/bytecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 8d4ebd0..e68b7e2 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -223,7 +223,8 @@ static void I(local)(Symbol p) {
 	offset = roundup(offset, p->type->align);
 	p->x.name = stringf("%d", offset);
 	p->x.offset = offset;
-	offset += p->type->size;
+	/* the assembler rounds block copies, as of an initializer, up to words */
+	offset += isarray(p->type) ? roundup(p->type->size, 4) : p->type->size;
 }
 
 static void I(progbeg)(int argc, char *argv[]) {}
-- 
2.43.0


From 0fcfc51786c8a8ff76b27dad0b180b33222267c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 031/111] fix: lcc jumps out of the table of a switch on an
 unsigned value above INT_MAX

---
 lcc/src/stmt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index 9c3bdbe..a0c3c37 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -440,8 +440,7 @@ void swcode(Swtch swp, int b[], int lb, int ub) {
 		Symbol table = genident(STATIC,
 			array(voidptype, u - l + 1, 0), GLOBAL);
 		(*IR->defsymbol)(table);
-		if (!isunsigned(swp->sym->type) || v[l] != 0)
-			cmp(LT, swp->sym, v[l], lolab);
+		cmp(LT, swp->sym, v[l], lolab);
 		cmp(GT, swp->sym, v[u], hilab);
 		e = (*optree['-'])(SUB, cast(idtree(swp->sym), ty), cnsttree(ty, v[l]));
 		if (e->type->size < unsignedptr->size)
-- 
2.43.0


From 3b4ae5b7812d1c4c990872d577f0ef31d22a2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 032/111] fix: lcc takes -0.0 and 0.0 for the same constant

---
 lcc/src/sym.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/sym.c b/lcc/src/sym.c
index 2a1cfeb..26ee164 100644
--- a/lcc/src/sym.c
+++ b/lcc/src/sym.c
@@ -171,7 +171,7 @@ Symbol constant(Type ty, Value v) {
 			switch (ty->op) {
 			case INT:      if (equalp(i)) return &p->sym; break;
 			case UNSIGNED: if (equalp(u)) return &p->sym; break;
-			case FLOAT:    if (equalp(d)) return &p->sym; break;
+			case FLOAT:    if (memcmp(&v.d, &p->sym.u.c.v.d, sizeof v.d) == 0) return &p->sym; break;
 			case FUNCTION: if (equalp(g)) return &p->sym; break;
 			case ARRAY:
 			case POINTER:  if (equalp(p)) return &p->sym; break;
-- 
2.43.0


From ccc63cb27fb41dc6e7f40e630db58877d6092404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 033/111] fix: lcc fails on a compound assignment to an lvalue
 with a conditional subscript that is folded to 0

---
 lcc/src/simp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index ea26ab6..d8bec93 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -271,14 +271,14 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			commute(r,l);
 			identity(r,l,U,u,ones(8*ty->size));
 			if (r->op == CNST+U && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0UL));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0UL));
 			break;
 		case BAND+I:
 			foldcnst(I,i,&);
 			commute(r,l);
 			identity(r,l,I,i,ones(8*ty->size));
 			if (r->op == CNST+I && r->u.v.u == 0)
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			break;
 
 		case MUL+U:
@@ -464,7 +464,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			break;
 		case MOD+I:
 			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
+				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
 			&&  r->op == CNST+I && r->u.v.i == -1))
-- 
2.43.0


From 2efce9e57a34053c85d2ed3f87f6922147aa69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 034/111] fix: lcc does not take 5 % 1 and 5u >= 0u for
 constant expressions

---
 lcc/src/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index d8bec93..8a2e0e7 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -44,7 +44,7 @@
 	&& r->u.v.i >= 0 && r->u.v.i < 8*l->type->size) \
 		return cnsttree(ty, (unsigned long)(l->u.v.u OP r->u.v.i))
 #define geu(L,R,V) \
-	if (R->op == CNST+U && R->u.v.u == 0) do { \
+	if (L->op != CNST+U && R->op == CNST+U && R->u.v.u == 0) do { \
 		warning("result of unsigned comparison is constant\n"); \
 		return tree(RIGHT, inttype, root(L), cnsttree(inttype, (long)(V))); } while(0)
 #define idempotent(OP) if (l->op == OP) return l->kids[0]
@@ -463,7 +463,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 				return eqtree(NE, r, l);
 			break;
 		case MOD+I:
-			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
+			if (l->op != CNST+I && r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
 				return tree(RIGHT, ty, l, cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
-- 
2.43.0


From fe62b88167e567c0a9c582d1aea861e0f01cb474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 035/111] fix: lcc folds negative enumeration constants as
 4294967296 too large on 64-bit hosts

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 96eec21..93258f3 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -391,7 +391,7 @@ static Tree primary(void) {
 		   if (xref)
 		   	use(tsym, src);
 		   if (tsym->sclass == ENUM)
-		   	p = consttree(tsym->u.value, inttype);
+		   	p = cnsttree(inttype, (long)tsym->u.value);
 		   else {
 		   	if (tsym->sclass == TYPEDEF)
 		   		error("illegal use of type name `%s'\n", tsym->name);
-- 
2.43.0


From 005b5182b71390d288f92905c3b45ea514ca20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 036/111] fix: lcc rejects braces around the initializer of a
 bit field or array character

---
 lcc/src/init.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 2f015b4..3cf9d1d 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -56,9 +56,17 @@ static int genconst(Tree e, int def) {
 static Tree initvalue(Type ty) {
 	Type aty;
 	Tree e;
+	int brace = t == '{';
 
+	if (brace)
+		t = gettok();
 	needconst++;
 	e = expr1(0);
+	if (brace) {
+		if (t == ',')
+			t = gettok();
+		expect('}');
+	}
 	if ((aty = assign(ty, e)) != NULL)
 		e = cast(e, aty);
 	else {
-- 
2.43.0


From 72f56146d361beb88fe09ae0908e77d9dd5c8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 037/111] fix: lcc rejects a comma at the end of a list of bit
 field initializers

---
 lcc/src/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 3cf9d1d..dbdef50 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -148,7 +148,7 @@ static int initfields(Field p, Field q) {
 		if (p->link == q)
 			break;
 		p = p->link;
-	} while (t == ',' && (t = gettok()) != 0);
+	} while (t == ',' && (t = gettok()) != '}');
 	n = (n + 7)/8;
 	for (i = 0; i < n; i++) {
 		Value v;
-- 
2.43.0


From 414608358be4a6521b65d55c603b246190a537bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 038/111] fix: lcc rejects a comma at the end of the braces
 around a nested union, string or scalar

---
 lcc/src/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index dbdef50..d2b89ff 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -118,7 +118,7 @@ static int initchar(int len, Type ty) {
 
 /* initend - finish off an initialization at level lev; accepts trailing comma */
 static void initend(int lev, char follow[]) {
-	if (lev == 0 && t == ',')
+	if (t == ',')
 		t = gettok();
 	test('}', follow);
 }
-- 
2.43.0


From fadff4248bfcb0fe2084d438b3c9b6f55b0fb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 039/111] fix: lcc takes too many initializers for a struct
 that ends with an unnamed bit field

---
 lcc/src/init.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index d2b89ff..b6485d6 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -166,7 +166,7 @@ static int initfields(Field p, Field q) {
 
 /* initstruct - initialize a struct ty of <= len bytes; if len == 0, go to } */
 static int initstruct(int len, Type ty, int lev) {
-	int a, n = 0;
+	int a, n = 0, last = 0;
 	Field p = ty->u.sym->u.s.flist;
 
 	do {
@@ -187,13 +187,15 @@ static int initstruct(int len, Type ty, int lev) {
 		if (p->link) {
 			p = p->link;
 			a = p->type->align;
-		} else
+		} else {
 			a = ty->align;
+			last = 1;
+		}
 		if (a && n%a) {
 			(*IR->space)(a - n%a);
 			n = roundup(n, a);
 		}
-		if ((len > 0 && n >= len) || t != ',')
+		if ((len > 0 && (n >= len || last)) || t != ',')
 			break;
 		t = gettok();
 	} while (t != '}');
-- 
2.43.0


From b1014e5676e908b28630cb8c63ab2fa0d81e50f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 040/111] fix: lcc mistakes an identifier before a #pragma line
 for the word in the pragma

---
 lcc/src/input.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lcc/src/input.c b/lcc/src/input.c
index c2a084e..92c7de0 100644
--- a/lcc/src/input.c
+++ b/lcc/src/input.c
@@ -77,6 +77,11 @@ void input_init(int argc, char *argv[]) {
 
 /* pragma - handle #pragma ref id... */
 static void pragma(void) {
+	/* may be called by getchr in the middle of a statement: t, token and tsym are still needed */
+	int saved_t = t;
+	char *saved_token = token;
+	Symbol saved_tsym = tsym;
+
 	if ((t = gettok()) == ID && strcmp(token, "ref") == 0)
 		for (;;) {
 			while (*cp == ' ' || *cp == '\t')
@@ -88,6 +93,9 @@ static void pragma(void) {
 				use(tsym, src);
 			}	
 		}
+	t = saved_t;
+	token = saved_token;
+	tsym = saved_tsym;
 }
 
 /* resynch - set line number/file name in # n [ "file" ] and #pragma ... */
-- 
2.43.0


From 1ad6a0e06284d7f18be009aad64d52e732bad10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 041/111] fix: lcc does not join string literals on two lines
 that end with CR LF

---
 lcc/src/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/lex.c b/lcc/src/lex.c
index ec2f1ec..aca482f 100644
--- a/lcc/src/lex.c
+++ b/lcc/src/lex.c
@@ -859,7 +859,7 @@ static void *scon(int q, void *put(int c, void *cl), void *cl) {
 }
 int getchr(void) {
 	for (;;) {
-		while (map[*cp]&BLANK)
+		while (map[*cp]&BLANK || *cp == '\r')
 			cp++;
 		if (!(map[*cp]&NEWLINE))
 			return *cp;
-- 
2.43.0


From ca97d542167a1596b8c970ce302821899bece460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 042/111] fix: q3cpp groups operators of the same priority in
 #if from right to left

---
 lcc/cpp/eval.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 95a9e11..6cd0f39 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -90,7 +90,7 @@ struct pri {
 	{ 16, 0, UNARY },	/* UMINUS */
 };
 
-int	evalop(struct pri);
+int	evalop(int);
 struct	value tokval(Token *);
 struct value vals[NSTAK], *vp;
 enum toktype ops[NSTAK], *op;
@@ -168,7 +168,7 @@ eval(Tokenrow *trp, int kw)
 		case COLON: case COMMA:
 			if (rand==0)
 				goto syntax;
-			if (evalop(priority[tp->type])!=0)
+			if (evalop(tp->type)!=0)
 				return 0;
 			*op++ = tp->type;
 			rand = 0;
@@ -183,7 +183,7 @@ eval(Tokenrow *trp, int kw)
 		case RP:
 			if (!rand)
 				goto syntax;
-			if (evalop(priority[RP])!=0)
+			if (evalop(RP)!=0)
 				return 0;
 			if (op<=ops || op[-1]!=LP) {
 				goto syntax;
@@ -198,7 +198,7 @@ eval(Tokenrow *trp, int kw)
 	}
 	if (rand==0)
 		goto syntax;
-	if (evalop(priority[END])!=0)
+	if (evalop(END)!=0)
 		return 0;
 	if (op!=&ops[1] || vp!=&vals[1]) {
 		error(ERROR, "Botch in #if/#elsif");
@@ -213,8 +213,9 @@ syntax:
 }
 
 int
-evalop(struct pri pri)
+evalop(int tok)
 {
+	struct pri pri = priority[tok];
 	struct value v1, v2;
 	long rv1, rv2;
 	int rtype, oper;
@@ -225,7 +226,10 @@ evalop(struct pri pri)
 
 	rv2=0;
 	rtype=0;
-	while (pri.pri < priority[op[-1]].pri) {
+	/* binary operators group left to right, ?: groups right to left */
+	while (pri.pri < priority[op[-1]].pri
+	 || (pri.pri == priority[op[-1]].pri && pri.arity==2
+	  && (pri.ctype!=SPCL || (tok==COLON && op[-1]==COLON)))) {
 		oper = *--op;
 		if (priority[oper].arity==2) {
 			v2 = *--vp;
-- 
2.43.0


From b4a332ce681124f5326d10fdfe6d36c155117624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 043/111] fix: q3cpp takes the result of ?: in #if for signed
 if only the other operand is unsigned

---
 lcc/cpp/eval.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 6cd0f39..54c762e 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -369,10 +369,13 @@ evalop(int tok)
 				error(ERROR, "Bad ?: in #if/endif");
 			else {
 				op--;
-				if ((--vp)->val==0)
-					v1 = v2;
 				rtype = v1.type;
-				rv1 = v1.val;
+				if ((--vp)->val==0) {
+					rtype = v2.type;
+					rv1 = v2.val;
+				}
+				if (rtype==SGN && (v1.type==UNS || v2.type==UNS))
+					rtype = UNS;
 			}
 			break;
 		case DEFINED:
-- 
2.43.0


From d65313d211b87b88d921685e59f9ca2a49c658cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 044/111] fix: q3cpp evaluates the condition of #elif after a
 group has been taken

---
 lcc/cpp/cpp.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 5c0cfd7..b9315a2 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -169,13 +169,11 @@ control(Tokenrow *trp)
 		}
 		if (ifsatisfied[ifdepth]==2)
 			error(ERROR, "#elif after #else");
-		if (eval(trp, np->val)) {
-			if (ifsatisfied[ifdepth])
-				skipping = ifdepth;
-			else {
-				skipping = 0;
-				ifsatisfied[ifdepth] = 1;
-			}
+		if (ifsatisfied[ifdepth])	/* the condition is not looked at */
+			skipping = ifdepth;
+		else if (eval(trp, np->val)) {
+			skipping = 0;
+			ifsatisfied[ifdepth] = 1;
 		} else
 			skipping = ifdepth;
 		break;
-- 
2.43.0


From caac9ac2dd0532ed160d1b024de1159cdb442bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 045/111] fix: q3cpp takes a macro name after # in a skipped
 group for #if

---
 lcc/cpp/cpp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index b9315a2..2cd56e6 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -100,8 +100,9 @@ control(Tokenrow *trp)
 			error(ERROR, "Unidentifiable control line");
 		return;			/* else empty line */
 	}
-	if ((np = lookup(tp, 0))==NULL || ((np->flag&ISKW)==0 && !skipping)) {
-		error(WARNING, "Unknown preprocessor control %t", tp);
+	if ((np = lookup(tp, 0))==NULL || (np->flag&ISKW)==0) {
+		if (!skipping)
+			error(WARNING, "Unknown preprocessor control %t", tp);
 		return;
 	}
 	if (skipping) {
-- 
2.43.0


From 9e857de1cc542230e878bda9ab428f906696ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 046/111] fix: q3cpp drops the space for a line end in a
 stringified macro argument

---
 lcc/cpp/macro.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2972083..2a578fe 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -220,6 +220,25 @@ expand(Tokenrow *trp, Nlist *np)
 	dofree(ntr.bp);
 }	
 
+/*
+ * A line end between the tokens of an argument counts as white space
+ */
+static void
+linespace(Tokenrow *trp)
+{
+	Token *tp = trp->tp;
+	uchar *tt;
+
+	if (tp >= trp->lp || tp->wslen) {
+		makespace(trp);
+		return;
+	}
+	tt = newstring(tp->t, tp->len, 1);
+	*tt++ = ' ';
+	tp->t = tt;
+	tp->wslen = 1;
+}
+
 /*
  * Gather an arglist, starting in trp with tp pointing at the macro name.
  * Return total number of tokens passed, stash number of args found.
@@ -264,7 +283,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			gettokens(trp, 0);
 		if (needspace) {
 			needspace = 0;
-			makespace(trp);
+			linespace(trp);
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
@@ -276,7 +295,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			trp->tp += 1;
 			adjustrow(trp, -1);
 			trp->tp -= 1;
-			makespace(trp);
+			linespace(trp);
 			needspace = 1;
 			continue;
 		}
-- 
2.43.0


From 321e48952d7649c5ec0235fe5c1ae8c3c765acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 047/111] fix: q3cpp obeys line numbers and reports odd control
 lines in skipped groups

---
 lcc/cpp/cpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 2cd56e6..11c6756 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -94,6 +94,8 @@ control(Tokenrow *trp)
 
 	tp = trp->tp;
 	if (tp->type!=NAME) {
+		if (skipping)
+			return;
 		if (tp->type==NUMBER)
 			goto kline;
 		if (tp->type != NL)
-- 
2.43.0


From 13fa0d629b79ff2a32fec44790a4d6b7913113ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 048/111] fix: q3cpp ends preprocessing numbers at an
 underscore

---
 lcc/cpp/cpplex.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 8030354..bbd152a 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -91,13 +91,11 @@ struct	fsm {
 	{NUM1,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM1,	{ C_NUM, C_ALPH, '.' },	NUM1},
 	{NUM1,	{ 'E', 'e' },	NUM2},
-	{NUM1,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw possible start of exponent, digits-e */
 	{NUM2,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM2,	{ '+', '-' },	NUM1},
 	{NUM2,	{ C_NUM, C_ALPH },	NUM1},
-	{NUM2,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw a '.', which could be a number or an operator */
 	{NUM3,	{ C_XX },	ACT(DOT,S_SELFB)},
-- 
2.43.0


From b1d2e3b354e5e7ce268c42d1627b4003b850a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 049/111] fix: q3cpp does not know '\a' in #if

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 54c762e..03ecaa9 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -486,7 +486,7 @@ tokval(Token *tp)
 				}
 			} else {
 				static char cvcon[]
-				  = "b\bf\fn\nr\rt\tv\v''\"\"??\\\\";
+				  = "a\ab\bf\fn\nr\rt\tv\v''\"\"??\\\\";
 				for (i=0; i<sizeof(cvcon); i+=2) {
 					if (*p == cvcon[i]) {
 						n = cvcon[i+1];
-- 
2.43.0


From d80b382c76bf519ffceea33027c91264b03ab8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 050/111] fix: q3cpp forgets the space before a macro name or
 parameter when the expansion is stringified

---
 lcc/cpp/cpp.h    |  1 +
 lcc/cpp/macro.c  | 23 ++---------------------
 lcc/cpp/tokens.c | 26 +++++++++++++++++++++++++-
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index ddd7502..16da3d5 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -130,6 +130,7 @@ long	eval(Tokenrow *, int);
 void	genline(void);
 void	setempty(Tokenrow *);
 void	makespace(Tokenrow *);
+void	realspace(Tokenrow *);
 char	*outnum(char *, int);
 int	digit(int);
 uchar	*newstring(uchar *, int, int);
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2a578fe..c87acff 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -220,25 +220,6 @@ expand(Tokenrow *trp, Nlist *np)
 	dofree(ntr.bp);
 }	
 
-/*
- * A line end between the tokens of an argument counts as white space
- */
-static void
-linespace(Tokenrow *trp)
-{
-	Token *tp = trp->tp;
-	uchar *tt;
-
-	if (tp >= trp->lp || tp->wslen) {
-		makespace(trp);
-		return;
-	}
-	tt = newstring(tp->t, tp->len, 1);
-	*tt++ = ' ';
-	tp->t = tt;
-	tp->wslen = 1;
-}
-
 /*
  * Gather an arglist, starting in trp with tp pointing at the macro name.
  * Return total number of tokens passed, stash number of args found.
@@ -283,7 +264,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			gettokens(trp, 0);
 		if (needspace) {
 			needspace = 0;
-			linespace(trp);
+			realspace(trp);
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
@@ -295,7 +276,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			trp->tp += 1;
 			adjustrow(trp, -1);
 			trp->tp -= 1;
-			linespace(trp);
+			realspace(trp);
 			needspace = 1;
 			continue;
 		}
diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index 964453c..abb2d22 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -131,12 +131,16 @@ void
 insertrow(Tokenrow *dtr, int ntok, Tokenrow *str)
 {
 	int nrtok = rowlen(str);
+	int ws = dtr->tp->wslen && (dtr->tp->flag&XPWS)==0;
 
 	dtr->tp += ntok;
 	adjustrow(dtr, nrtok-ntok);
 	dtr->tp -= ntok;
 	movetokenrow(dtr, str);
-	makespace(dtr);
+	if (ws)				/* white space of the first token replaced */
+		realspace(dtr);
+	else
+		makespace(dtr);
 	dtr->tp += nrtok;
 	makespace(dtr);
 }
@@ -170,6 +174,26 @@ makespace(Tokenrow *trp)
 	tp->flag |= XPWS;
 }
 
+/*
+ * make sure there is WS before trp->tp that # takes for white space
+ */
+void
+realspace(Tokenrow *trp)
+{
+	Token *tp = trp->tp;
+
+	makespace(trp);
+	if (tp >= trp->lp)
+		return;
+	if (tp->wslen == 0) {
+		uchar *tt = newstring(tp->t, tp->len, 1);
+		*tt++ = ' ';
+		tp->t = tt;
+		tp->wslen = 1;
+	}
+	tp->flag &= ~XPWS;
+}
+
 /*
  * Copy an entire tokenrow into another, at tp.
  * It is assumed that there is enough space.
-- 
2.43.0


From 342023221dcd52de0c2357a6b42493692fae3037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 051/111] fix: q3cpp takes constants from 0x80000000 for
 unsigned in #if where long has 64 bits, large decimal ones for signed

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 03ecaa9..0af7988 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -437,7 +437,7 @@ tokval(Token *tp)
 			n *= base;
 			n += i;
 		}
-		if (n>=0x80000000 && base!=10)
+		if ((long)n<0)		/* does not fit in a long */
 			v.type = UNS;
 		for (; *p; p++) {
 			if (*p=='u' || *p=='U')
-- 
2.43.0


From 7e74522e019ddc3d94e687b774917823f9c6b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 052/111] fix: q3cpp does not expand the macro after the name
 of a function-like macro that is not called

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index c87acff..7a0539e 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -250,8 +250,10 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		}
 		if (trp->tp->type==LP)
 			break;
-		if (trp->tp->type!=NL)
+		if (trp->tp->type!=NL) {
+			trp->tp -= ntok;
 			return ntok;
+		}
 	}
 	*narg = 0;
 	ntok++;
-- 
2.43.0


From 4836a403178f24ab19ea298e1faea3f7eb9b2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 053/111] fix: q3cpp takes a control line after the name of a
 function-like macro for text

---
 lcc/cpp/cpp.c   | 29 ++++++++++++++++++++++++++++-
 lcc/cpp/cpp.h   |  1 +
 lcc/cpp/macro.c |  8 +++++++-
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 11c6756..1a3f871 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -43,6 +43,27 @@ main(int argc, char **argv)
 	return 0;
 }
 
+static Tokenrow kept;	/* control line read by gatherargs */
+static int keptinc;
+
+/*
+ * Keep the tokens from trp->tp on, a line just read, for process;
+ * inc is the number of lines before it.
+ */
+void
+keeprow(Tokenrow *trp, int inc)
+{
+	Tokenrow row;
+
+	row.bp = trp->tp;
+	row.lp = trp->lp;
+	dofree(kept.bp);
+	copytokenrow(&kept, &row);
+	trp->lp = trp->tp;
+	keptinc = cursource->lineinc - inc;
+	cursource->lineinc = inc;
+}
+
 void
 process(Tokenrow *trp)
 {
@@ -52,7 +73,13 @@ process(Tokenrow *trp)
 		if (trp->tp >= trp->lp) {
 			trp->tp = trp->lp = trp->bp;
 			outbufp = outbuf;
-			anymacros |= gettokens(trp, 1);
+			if (rowlen(&kept)>0) {
+				adjustrow(trp, rowlen(&kept));
+				movetokenrow(trp, &kept);
+				kept.lp = kept.bp;
+				cursource->lineinc = keptinc;
+			} else
+				anymacros |= gettokens(trp, 1);
 			trp->tp = trp->bp;
 		}
 		if (trp->tp->type == END) {
diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index 16da3d5..c9cb03f 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -96,6 +96,7 @@ Source	*setsource(char *, int, char *);
 void	unsetsource(void);
 void	puttokens(Tokenrow *);
 void	process(Tokenrow *);
+void	keeprow(Tokenrow *, int);
 void	*domalloc(int);
 void	dofree(void *);
 void	error(enum errtype, char *, ...);
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 7a0539e..f0c798f 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -233,7 +233,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 	Token *bp, *lp;
 	Tokenrow ttr;
 	int ntokp;
-	int needspace;
+	int needspace, inc;
 
 	*narg = -1;			/* means that there is no macro call */
 	/* look for the ( */
@@ -241,7 +241,13 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		trp->tp++;
 		ntok++;
 		if (trp->tp >= trp->lp) {
+			inc = cursource->lineinc;
 			gettokens(trp, 0);
+			if (trp->tp->type==SHARP) {	/* a control line ends the search */
+				keeprow(trp, inc);
+				trp->tp -= ntok;
+				return ntok;
+			}
 			if ((trp->lp-1)->type==END) {
 				trp->lp -= 1;
 				trp->tp -= ntok;
-- 
2.43.0


From 9166dd7a63fb4ef5c4eac79cbd8c7b0a8fc1eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 054/111] fix: q3cpp looks for ## past the end of a macro body
 and leaves the argument unexpanded

---
 lcc/cpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index f0c798f..64a5e49 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -345,7 +345,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		}
 		if (rtr->tp->type==NAME
 		 && (argno = lookuparg(np, rtr->tp)) >= 0) {
-			if ((rtr->tp+1)->type==DSHARP
+			if ((rtr->tp+1<rtr->lp && (rtr->tp+1)->type==DSHARP)
 			 || (rtr->tp!=rtr->bp && (rtr->tp-1)->type==DSHARP))
 				insertrow(rtr, 1, atr[argno]);
 			else {
-- 
2.43.0


From 18ae6e2cc33fd46a6c49c442abba81ded90f0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 055/111] fix: q3cpp looks for absolute include directories
 below the directory of the source file

---
 lcc/cpp/include.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 5ecd8b3..9b14555 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -12,9 +12,13 @@ void appendDirToIncludeList( char *dir )
 	int i;
 	char *fqdir;
 
-	fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file, 256, 0 );
-	strcat( fqdir, "/" );
-	strcat( fqdir, dir );
+	if( dir[0] == '/' ) {
+		fqdir = (char *)newstring( (uchar *)dir, strlen( dir ), 0 );
+	} else {
+		fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file, 256, 0 );
+		strcat( fqdir, "/" );
+		strcat( fqdir, dir );
+	}
 
 	//avoid adding it more than once
 	for (i=NINCLUDE-2; i>=0; i--) {
-- 
2.43.0


From d7de9b22a909a20126a90a9d8f5355d305a34b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 056/111] fix: q3cpp skips the first character of a line in
 very long comments

---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index bbd152a..ec897e2 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -433,7 +433,7 @@ gettokens(Tokenrow *trp, int reset)
 				if (ip >= s->inb+(7*INS/8)) { /* very long comment */
 					memmove(tp->t, ip, 4+s->inl-ip);
 					s->inl -= ip-tp->t;
-					ip = tp->t+1;
+					ip = tp->t;
 				}
 				continue;
 
-- 
2.43.0


From b69cbf7b31eab768b2b2e169e24882dd385d6036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 057/111] fix: q3cpp overflows its input buffer on very long
 comments

---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index ec897e2..d4b47d2 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -430,7 +430,7 @@ gettokens(Tokenrow *trp, int reset)
 				state = COM2;
 				ip += runelen;
 				runelen = 1;
-				if (ip >= s->inb+(7*INS/8)) { /* very long comment */
+				if (ip >= s->inb+(3*INS/4)) { /* very long comment */
 					memmove(tp->t, ip, 4+s->inl-ip);
 					s->inl -= ip-tp->t;
 					ip = tp->t;
-- 
2.43.0


From 6e78235fc25ae5b3221090442e454cc66dcd0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 058/111] fix: q3cpp accepts #if with an unmatched parenthesis
 or a comma

---
 lcc/cpp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 0af7988..ee9a1a7 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -241,7 +241,7 @@ evalop(int tok)
 		switch (priority[oper].ctype) {
 		case 0:
 		default:
-			error(WARNING, "Syntax error in #if/#endif");
+			error(ERROR, "Syntax error in #if/#elif");
 			return 1;
 		case ARITH:
 		case RELAT:
-- 
2.43.0


From 863f311ac4bdd65f3b0723f035a7cb04954d464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 059/111] fix: q3cpp expands a macro within its own expansion
 for ever when more than 31 others surround it

---
 lcc/cpp/hideset.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lcc/cpp/hideset.c b/lcc/cpp/hideset.c
index bd2540d..c396cf2 100644
--- a/lcc/cpp/hideset.c
+++ b/lcc/cpp/hideset.c
@@ -9,7 +9,6 @@
  * Hideset 0 is empty.
  */
 
-#define	HSSIZ	32
 typedef	Nlist	**Hideset;
 Hideset	*hidesets;
 int	nhidesets = 0;
@@ -40,26 +39,26 @@ int
 newhideset(int hs, Nlist *np)
 {
 	int i, len;
-	Nlist *nhs[HSSIZ+3];
-	Hideset hs1, hs2;
+	Hideset nhs, hs1, hs2;
 
+	for (len=0; hidesets[hs][len]; len++)
+		;
+	nhs = (Hideset)domalloc((len+2)*sizeof(Nlist *));
 	len = inserths(nhs, hidesets[hs], np);
 	for (i=0; i<nhidesets; i++) {
 		for (hs1=nhs, hs2=hidesets[i]; *hs1==*hs2; hs1++, hs2++)
-			if (*hs1 == NULL)
+			if (*hs1 == NULL) {
+				dofree(nhs);
 				return i;
+			}
 	}
-	if (len>=HSSIZ)
-		return hs;
 	if (nhidesets >= maxhidesets) {
 		maxhidesets = 3*maxhidesets/2+1;
 		hidesets = (Hideset *)realloc(hidesets, (sizeof (Hideset *))*maxhidesets);
 		if (hidesets == NULL)
 			error(FATAL, "Out of memory from realloc");
 	}
-	hs1 = (Hideset)domalloc(len*sizeof(Hideset));
-	memmove(hs1, nhs, len*sizeof(Hideset));
-	hidesets[nhidesets] = hs1;
+	hidesets[nhidesets] = nhs;
 	return nhidesets++;
 }
 
-- 
2.43.0


From 11827c14fb5f76463daa6f6725869fa38e805703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 060/111] fix: q3cpp overruns its stacks on #if expressions
 with more than 31 pending operators

---
 lcc/cpp/eval.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index ee9a1a7..91f8d8d 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -2,7 +2,6 @@
 #include <string.h>
 #include "cpp.h"
 
-#define	NSTAK	32
 #define	SGN	0
 #define	UNS	1
 #define	UND	2
@@ -92,8 +91,8 @@ struct pri {
 
 int	evalop(int);
 struct	value tokval(Token *);
-struct value vals[NSTAK], *vp;
-enum toktype ops[NSTAK], *op;
+struct value *vals, *vp;
+enum toktype *ops, *op;
 
 /*
  * Evaluate an #if #elif #ifdef #ifndef line.  trp->tp points to the keyword.
@@ -118,6 +117,10 @@ eval(Tokenrow *trp, int kw)
 	kwdefined->val = KDEFINED;	/* activate special meaning of defined */
 	expandrow(trp, "<if>");
 	kwdefined->val = NAME;
+	dofree(vals);		/* no token pushes more than one of each */
+	dofree(ops);
+	vals = (struct value *)domalloc((rowlen(trp)+1)*sizeof(*vals));
+	ops = (enum toktype *)domalloc((rowlen(trp)+1)*sizeof(*ops));
 	vp = vals;
 	op = ops;
 	*op++ = END;
-- 
2.43.0


From e2a63899a4d69aee5d092a24a4426b9931daf904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 061/111] fix: q3cpp overruns the name of an include directory
 of more than 255 characters

---
 lcc/cpp/include.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 9b14555..43871fd 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -15,7 +15,10 @@ void appendDirToIncludeList( char *dir )
 	if( dir[0] == '/' ) {
 		fqdir = (char *)newstring( (uchar *)dir, strlen( dir ), 0 );
 	} else {
-		fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file, 256, 0 );
+		char *base = includelist[NINCLUDE-1].file;
+
+		fqdir = (char *)domalloc( strlen( base ) + strlen( dir ) + 2 );
+		strcpy( fqdir, base );
 		strcat( fqdir, "/" );
 		strcat( fqdir, dir );
 	}
-- 
2.43.0


From 2699aa9860207f94fa271d569be2e8538be0decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 062/111] fix: q3cpp looks for > past the end of an #include
 line

---
 lcc/cpp/include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 43871fd..76f45b1 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -67,7 +67,7 @@ doinclude(Tokenrow *trp)
 		len = 0;
 		trp->tp++;
 		while (trp->tp->type!=GT) {
-			if (trp->tp>trp->lp || len+trp->tp->len+2 >= sizeof(fname))
+			if (trp->tp>=trp->lp || len+trp->tp->len+2 >= sizeof(fname))
 				goto syntax;
 			strncpy(fname+len, (char*)trp->tp->t, trp->tp->len);
 			len += trp->tp->len;
-- 
2.43.0


From a5e1a3e630098dd7fddb919eb56432e8e9ad6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 063/111] fix: q3cpp overruns its table with more than 32
 options -I

---
 lcc/cpp/unix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/cpp/unix.c b/lcc/cpp/unix.c
index bac841d..c908194 100644
--- a/lcc/cpp/unix.c
+++ b/lcc/cpp/unix.c
@@ -32,6 +32,8 @@ setup(int argc, char **argv)
 					includelist[i].deleted = 1;
 			break;
 		case 'I':
+			if (numIncludeDirs >= NINCLUDE)
+				error(FATAL, "Too many -I directives");
 			includeDirs[ numIncludeDirs++ ] = newstring( (uchar *)optarg, strlen( optarg ), 0 );
 			break;
 		case 'D':
-- 
2.43.0


From 3883e0e4e32b38970597592234043d0266d25547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 064/111] fix: q3cpp overruns its buffer on tokens of more than
 127 characters produced by ##

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 64a5e49..ddd868f 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -374,7 +374,7 @@ doconcat(Tokenrow *trp)
 		if (trp->tp->type==DSHARP1)
 			trp->tp->type = DSHARP;
 		else if (trp->tp->type==DSHARP) {
-			char tt[128];
+			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
 			if (ltp<trp->bp || ntp>=trp->lp) {
@@ -382,6 +382,7 @@ doconcat(Tokenrow *trp)
 				continue;
 			}
 			len = ltp->len + ntp->len;
+			tt = (char *)domalloc(len+1);
 			strncpy((char*)tt, (char*)ltp->t, ltp->len);
 			strncpy((char*)tt+ltp->len, (char*)ntp->t, ntp->len);
 			tt[len] = '\0';
@@ -389,6 +390,7 @@ doconcat(Tokenrow *trp)
 			maketokenrow(3, &ntr);
 			gettokens(&ntr, 1);
 			unsetsource();
+			dofree(tt);
 			if (ntr.lp-ntr.bp!=2 || ntr.bp->type==UNCLASS)
 				error(WARNING, "Bad token %r produced by ##", &ntr);
 			ntr.lp = ntr.bp+1;
-- 
2.43.0


From ef3bb758bcc8885788d0380678b047f57304a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 065/111] fix: q3cpp looks at the token past the end of a macro
 body that ends with #

---
 lcc/cpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index ddd868f..e0640b8 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -334,7 +334,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		if (rtr->tp->type==SHARP) {	/* string operator */
 			tp = rtr->tp;
 			rtr->tp += 1;
-			if ((argno = lookuparg(np, rtr->tp))<0) {
+			if (rtr->tp>=rtr->lp || (argno = lookuparg(np, rtr->tp))<0) {
 				error(ERROR, "# not followed by macro parameter");
 				continue;
 			}
-- 
2.43.0


From f115f17a9c64d9e439bdfe8d76fdcc52ad76b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 066/111] fix: q3cpp overruns its output buffer on rows with
 many or long values of __FILE__ and __LINE__

---
 lcc/cpp/cpp.c     | 16 ++++++++++++++++
 lcc/cpp/cpp.h     |  1 +
 lcc/cpp/include.c |  1 +
 lcc/cpp/macro.c   |  1 +
 4 files changed, 19 insertions(+)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 1a3f871..6bd5106 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -10,6 +10,7 @@ char rcsid[] = "cpp.c - faked rcsid";
 #define	OUTS	16384
 char	outbuf[OUTS];
 char	*outbufp = outbuf;
+static char *outend = outbuf+OUTS;
 Source	*cursource;
 int	nerrs;
 struct	token nltoken = { NL, 0, 0, 0, 1, (uchar*)"\n" };
@@ -73,6 +74,7 @@ process(Tokenrow *trp)
 		if (trp->tp >= trp->lp) {
 			trp->tp = trp->lp = trp->bp;
 			outbufp = outbuf;
+			outend = outbuf+OUTS;
 			if (rowlen(&kept)>0) {
 				adjustrow(trp, rowlen(&kept));
 				movetokenrow(trp, &kept);
@@ -280,6 +282,20 @@ control(Tokenrow *trp)
 	setempty(trp);
 }
 
+/*
+ * Make sure that there is room for n characters at outbufp;
+ * tokens of the current row may refer to what is before.
+ */
+void
+outroom(int n)
+{
+	if (outend-outbufp < n) {
+		n += OUTS;
+		outbufp = (char *)domalloc(n);
+		outend = outbufp+n;
+	}
+}
+
 void *
 domalloc(int size)
 {
diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index c9cb03f..fe355b5 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -101,6 +101,7 @@ void	*domalloc(int);
 void	dofree(void *);
 void	error(enum errtype, char *, ...);
 void	flushout(void);
+void	outroom(int);
 int	fillbuf(Source *);
 int	trigraph(Source *);
 int	foldline(Source *);
diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 76f45b1..75d6a34 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -127,6 +127,7 @@ genline(void)
 	static Tokenrow tr = { &ta, &ta, &ta+1, 1 };
 	uchar *p;
 
+	outroom(strlen(cursource->filename) + strlen(wd) + 32);
 	ta.t = p = (uchar*)outbufp;
 	strcpy((char*)p, "#line ");
 	p += sizeof("#line ")-1;
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index e0640b8..eff547a 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -477,6 +477,7 @@ builtin(Tokenrow *trp, int biname)
 		s = s->next;
 	if (s==NULL)
 		s = cursource;
+	outroom(2*strlen(s->filename) + 32);
 	/* most are strings */
 	tp->type = STRING;
 	if (tp->wslen) {
-- 
2.43.0


From 7fa46300ddc15a2633d4b180ceeedf9e46c442b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 067/111] fix: q3cpp -V writes behind the text of tokens, which
 may be constant

---
 lcc/cpp/tokens.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index abb2d22..4e5dd65 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -293,12 +293,8 @@ peektokens(Tokenrow *trp, char *str)
 	if (tp<trp->bp || tp>trp->lp)
 		fprintf(stderr, "(tp offset %ld) ", (long int) (tp - trp->bp));
 	for (tp=trp->bp; tp<trp->lp && tp<trp->bp+32; tp++) {
-		if (tp->type!=NL) {
-			int c = tp->t[tp->len];
-			tp->t[tp->len] = 0;
-			fprintf(stderr, "%s", tp->t);
-			tp->t[tp->len] = c;
-		}
+		if (tp->type!=NL)
+			fprintf(stderr, "%.*s", tp->len, tp->t);
 		if (tp->type==NAME) {
 			fprintf(stderr, tp==trp->tp?"{*":"{");
 			prhideset(tp->hideset);
-- 
2.43.0


From 3a7434324a841c5486347057cdee520b5b41a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 068/111] fix: q3cpp looks for > past the end of an #include
 line that an expansion has filled

---
 lcc/cpp/include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 75d6a34..8742f3a 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -66,7 +66,7 @@ doinclude(Tokenrow *trp)
 	} else if (trp->tp->type==LT) {
 		len = 0;
 		trp->tp++;
-		while (trp->tp->type!=GT) {
+		while (trp->tp>=trp->lp || trp->tp->type!=GT) {
 			if (trp->tp>=trp->lp || len+trp->tp->len+2 >= sizeof(fname))
 				goto syntax;
 			strncpy(fname+len, (char*)trp->tp->t, trp->tp->len);
-- 
2.43.0


From e1773860c106e47e150653b9971b5ad3c0733a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 069/111] fix: q3cpp reads a character past its input buffer
 when it removes a line splice or trigraph

---
 lcc/cpp/cpplex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index d4b47d2..f093714 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -490,7 +490,7 @@ trigraph(Source *s)
 	}
 	if (c) {
 		*s->inp = c;
-		memmove(s->inp+1, s->inp+3, s->inl-s->inp+2);
+		memmove(s->inp+1, s->inp+3, s->inl-s->inp+1);
 		s->inl -= 2;
 	}
 	return c;
@@ -502,7 +502,7 @@ foldline(Source *s)
 	while (s->inp+1 >= s->inl && fillbuf(s)!=EOF)
 		;
 	if (s->inp[1] == '\n') {
-		memmove(s->inp, s->inp+2, s->inl-s->inp+3);
+		memmove(s->inp, s->inp+2, s->inl-s->inp+2);
 		s->inl -= 2;
 		return 1;
 	}
-- 
2.43.0


From f3ba7d7126c9915a9971995720e076501168ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 070/111] fix: q3cpp takes the end of a file without newline
 for a part of its last line

---
 lcc/cpp/cpplex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index f093714..d3b6e79 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -302,9 +302,10 @@ gettokens(Tokenrow *trp, int reset)
 	register Token *tp, *maxp;
 	int runelen;
 	Source *s = cursource;
-	int nmac = 0;
+	int nmac = 0, first;
 
 	tp = trp->lp;
+	first = tp - trp->bp;
 	ip = s->inp;
 	if (reset) {
 		s->lineinc = 0;
@@ -404,8 +405,10 @@ gettokens(Tokenrow *trp, int reset)
 				tp->type = END;
 				tp->len = 0;
 				s->inp = ip;
-				if (tp!=trp->bp && (tp-1)->type!=NL && cursource->fd!=-1)
+				if (tp!=trp->bp+first && cursource->fd!=-1) {
 					error(WARNING,"No newline at end of file");
+					*tp = nltoken;
+				}
 				trp->lp = tp+1;
 				return nmac;
 
-- 
2.43.0


From e620bfb0b2182a3b0b2c96cd07701ec2ed01310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 071/111] fix: q3cpp refuses lines of more than 4096 characters
 depending on their place in the file

---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index d3b6e79..37ff683 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -313,7 +313,7 @@ gettokens(Tokenrow *trp, int reset)
 			s->inl = s->inb;
 			fillbuf(s);
 			ip = s->inp = s->inb;
-		} else if (ip >= s->inb+(3*INS/4)) {
+		} else if (ip >= s->inb+INS/4) {	/* room for long rows */
 			memmove(s->inb, ip, 4+s->inl-ip);
 			s->inl = s->inb+(s->inl-ip);
 			ip = s->inp = s->inb;
-- 
2.43.0


From 7b5249b478b44973bf41527251f033b822811174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 072/111] fix: q3rcc keeps undeclared identifiers of file scope
 in memory it frees after the next function

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 93258f3..9259a0e 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -355,7 +355,7 @@ static Tree primary(void) {
 		   p = idtree(tsym->u.c.loc); break;
 	case ID:   if (tsym == NULL)
 		   	{
-				Symbol p = install(token, &identifiers, level, FUNC);
+				Symbol p = install(token, &identifiers, level, level == GLOBAL ? PERM : FUNC);
 				p->src = src;
 				if (getchr() == '(') {
 					Symbol q = lookup(token, externals);
-- 
2.43.0


From fbfaea68de5ca05c0f1c12c90280e89764cfa212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 073/111] fix: q3rcc generates code for trees with errors and
 aborts

---
 lcc/src/dag.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 6354728..1ab082e 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -36,6 +36,11 @@ static Node undag(Node);
 static Node visit(Node, int);
 static void unlist(void);
 void walk(Tree tp, int tlab, int flab) {
+	if (errcnt > 0) {	/* the tree may be incomplete */
+		reset();
+		deallocate(STMT);
+		return;
+	}
 	listnodes(tp, tlab, flab);
 	if (forest) {
 		Node list = forest->link;
-- 
2.43.0


From 6f0e976cbe1c3fad4c6db2b01baf30afa3df0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 074/111] fix: q3rcc generates code for parts of statements
 with errors and aborts

---
 lcc/src/dag.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 1ab082e..3ea2f07 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -36,12 +36,9 @@ static Node undag(Node);
 static Node visit(Node, int);
 static void unlist(void);
 void walk(Tree tp, int tlab, int flab) {
-	if (errcnt > 0) {	/* the tree may be incomplete */
-		reset();
-		deallocate(STMT);
-		return;
-	}
 	listnodes(tp, tlab, flab);
+	if (errcnt > 0)
+		forest = NULL;
 	if (forest) {
 		Node list = forest->link;
 		forest->link = NULL;
@@ -108,7 +105,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 	int op;
 
 	assert(tlab || flab || (tlab == 0 && flab == 0));
-	if (tp == NULL)
+	if (tp == NULL || errcnt > 0)	/* after errors trees may be incomplete */
 		return NULL;
 	if (tp->node)
 		return tp->node;
-- 
2.43.0


From 58c69e5d2dad968af94057929d99375ae79e5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 075/111] fix: q3rcc uses memory of functions and statements
 with errors after freeing it

---
 lcc/src/alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/src/alloc.c b/lcc/src/alloc.c
index e0566df..b1e325f 100644
--- a/lcc/src/alloc.c
+++ b/lcc/src/alloc.c
@@ -34,6 +34,8 @@ void deallocate(unsigned a) {
 	union header *p, *q;
 
 	assert(a < NELEMS(arena));
+	if (errcnt > 0)		/* error recovery may keep pointers */
+		return;
 	for (p = arena[a]; p; p = q) {
 		q = (void *)p->b.next;
 		free(p);
@@ -86,6 +88,8 @@ void *newarray(unsigned long m, unsigned long n, unsigned a) {
 }
 void deallocate(unsigned a) {
 	assert(a < NELEMS(arena));
+	if (errcnt > 0)		/* error recovery may keep pointers */
+		return;
 	arena[a]->next = freeblocks;
 	freeblocks = first[a].next;
 	first[a].next = NULL;
-- 
2.43.0


From 4594dc700f8e67f934666ae02f22e8a002824c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 076/111] fix: q3rcc divides by zero after a structure field of
 undefined size

---
 lcc/src/decl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 132241e..0e2a718 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -592,6 +592,8 @@ static void fields(Type ty) {
 				else if (p->type->size == 0)
 					error("undefined size for field `%t %s'\n",
 						p->type, id);
+				if (isfunc(p->type) || p->type->size == 0)
+					p->type = inttype;
 			}
 			if (isconst(p->type))
 				ty->u.sym->u.s.cfields = 1;
-- 
2.43.0


From 9e5bcb23a1c834b80e8473fa7d3ec7c8965ee251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 077/111] fix: q3rcc -x crashes on unknown enumerations

---
 lcc/src/decl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 0e2a718..b7b2e28 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -1147,7 +1147,7 @@ Type enumdcl(void) {
 		ty->type = inttype;
 	}
 	if (*tag && xref)
-		use(p, pos);
+		use(ty->u.sym, pos);
 	return ty;
 }
 
-- 
2.43.0


From e4882ff05c0673da52c62e81a7183c2daa193393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 078/111] fix: q3rcc crashes on initializers of structures
 without named fields

---
 lcc/src/init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index b6485d6..1891734 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -228,7 +228,8 @@ Type initializer(Type ty, int lev) {
 		deallocate(STMT);
 		needconst--;
 	}
-	if ((isunion(ty) || isstruct(ty)) && ty->size == 0) {
+	if ((isunion(ty) || isstruct(ty))
+	&& (ty->size == 0 || ty->u.sym->u.s.flist == NULL)) {
 		static char follow[] = { CHAR, STATIC, 0 };
 		error("cannot initialize undefined `%t'\n", ty);
 		skipto(';', follow);
-- 
2.43.0


From 7f1835a8678c0365b4b6d245a51587e52828c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 079/111] fix: q3rcc crashes on calls of undeclared functions
 at file scope

---
 lcc/src/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 9259a0e..089e6d9 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -374,6 +374,8 @@ static Tree primary(void) {
 						(*IR->defsymbol)(q);
 					}
 					p->u.alias = q;
+					if (p->scope == GLOBAL)
+						(*IR->defsymbol)(p);
 				} else {
 					error("undeclared identifier `%s'\n", p->name);
 					p->sclass = AUTO;
-- 
2.43.0


From 9ee9953d858b775c864afa551c8c0940cbfaac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 080/111] fix: q3rcc does not end on a file whose last line
 starts with # and has no newline

---
 lcc/src/input.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/input.c b/lcc/src/input.c
index 92c7de0..44d0ba6 100644
--- a/lcc/src/input.c
+++ b/lcc/src/input.c
@@ -134,9 +134,11 @@ static void resynch(void) {
 		warning("unrecognized control line\n");
 	while (*cp)
 		if (*cp++ == '\n') {
-			if (cp == limit + 1)
+			if (cp == limit + 1) {
 				nextline();
-			else
+				if (cp == limit)	/* end of file */
+					break;
+			} else
 				break;
 		}
 }
-- 
2.43.0


From d61e3bf282dadddf717fbc41c058526a0f813d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 081/111] fix: q3rcc writes beyond a buffer when names are long

---
 lcc/src/output.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lcc/src/output.c b/lcc/src/output.c
index a9c93e7..3347de0 100644
--- a/lcc/src/output.c
+++ b/lcc/src/output.c
@@ -54,13 +54,35 @@ void fprint(FILE *f, const char *fmt, ...) {
 
 /* stringf - formatted output to a saved string */
 char *stringf(const char *fmt, ...) {
-	char buf[1024];
+	char buf[1024], *bp = buf, *str;
+	const char *s;
+	unsigned long n = 1;
 	va_list ap;
 
+	/* no conversion but %s gives more than 128 characters */
 	va_start(ap, fmt);
-	vfprint(NULL, buf, fmt, ap);
+	for (s = fmt; *s; s++)
+		if (*s != '%')
+			n++;
+		else switch (*++s) {
+		case 's':           n += strlen(va_arg(ap, char *)); break;
+		case 'D': case 'U': case 'X':
+		                    n += 128; (void)va_arg(ap, long); break;
+		case 'g':           n += 128; (void)va_arg(ap, double); break;
+		case 'p':           n += 128; (void)va_arg(ap, void *); break;
+		default:            n += 128; (void)va_arg(ap, int); break;
+		}
 	va_end(ap);
-	return string(buf);
+	if (n > sizeof buf)
+		bp = malloc(n);
+	assert(bp);
+	va_start(ap, fmt);
+	vfprint(NULL, bp, fmt, ap);
+	va_end(ap);
+	str = string(bp);
+	if (bp != buf)
+		free(bp);
+	return str;
 }
 
 /* vfprint - formatted output to f or string bp */
-- 
2.43.0


From f391c909722b6a922302b7aa40b16061aca37c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 082/111] fix: q3rcc divides by zero on initialized arrays
 whose elements have no size

---
 lcc/src/decl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index b7b2e28..0a9b6fa 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -1008,7 +1008,7 @@ static Symbol dcllocal(int sclass, char *id, Type ty, Coordinate *pos) {
 			t1 = genident(STATIC, ty, GLOBAL);
 			initglobal(t1, 1);
 			if (isarray(p->type) && p->type->size == 0
-			&& t1->type->size > 0)
+			&& t1->type->size > 0 && t1->type->type->size > 0)
 				p->type = array(p->type->type,
 					t1->type->size/t1->type->type->size, 0);
 			e = idtree(t1);
@@ -1145,6 +1145,8 @@ Type enumdcl(void) {
 		error("unknown enumeration `%s'\n",  tag);
 		ty = newstruct(ENUM, tag);
 		ty->type = inttype;
+		ty->size = ty->type->size;
+		ty->align = ty->type->align;
 	}
 	if (*tag && xref)
 		use(ty->u.sym, pos);
-- 
2.43.0


From 9dcab7a2a98fc8dc6d98eacbcb2cd147f3d34304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 083/111] fix: q3rcc crashes on definitions of symbols it has
 refused

---
 lcc/src/decl.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 0a9b6fa..8855473 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -283,11 +283,13 @@ static void initglobal(Symbol p, int flag) {
 }
 void defglobal(Symbol p, int seg) {
 	p->u.seg = seg;
+	p->defined = 1;
+	if (errcnt > 0)
+		return;
 	swtoseg(p->u.seg);
 	if (p->sclass != STATIC)
 		(*IR->export)(p);
 	(*IR->global)(p);
-	p->defined = 1;
 }
 
 static Type dclr(Type basety, char **id, Symbol **params, int abstract) {
@@ -808,14 +810,16 @@ static void funcdefn(int sclass, char *id, Type ty, Symbol params[], Coordinate
 				caller[i]->structarg = callee[i]->structarg = 1;
 			}
 	if (glevel > 1)	for (i = 0; callee[i]; i++) callee[i]->sclass = AUTO;
-	if (cfunc->sclass != STATIC)
-		(*IR->export)(cfunc);
-	if (glevel && IR->stabsym) {
-		swtoseg(CODE); (*IR->stabsym)(cfunc); }
-	swtoseg(CODE);
-	(*IR->function)(cfunc, caller, callee, cfunc->u.f.ncalls);
-	if (glevel && IR->stabfend)
-		(*IR->stabfend)(cfunc, lineno);
+	if (errcnt <= 0) {
+		if (cfunc->sclass != STATIC)
+			(*IR->export)(cfunc);
+		if (glevel && IR->stabsym) {
+			swtoseg(CODE); (*IR->stabsym)(cfunc); }
+		swtoseg(CODE);
+		(*IR->function)(cfunc, caller, callee, cfunc->u.f.ncalls);
+		if (glevel && IR->stabfend)
+			(*IR->stabfend)(cfunc, lineno);
+	}
 	foreach(stmtlabs, LABELS, checklab, NULL);
 	exitscope();
 	expect('}');
-- 
2.43.0


From a7fd1e26be46a3c043368a5c4d1e5c0792478d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 084/111] fix: q3rcc aborts after a label that is defined twice

---
 lcc/src/stmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index a0c3c37..e8168fe 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -252,9 +252,9 @@ static void stmtlabel(void) {
 	}
 	if (p->defined)
 		error("redefinition of label `%s' previously defined at %w\n", p->name, &p->src);
-
+	else
+		definelab(p->u.l.label);
 	p->defined = 1;
-	definelab(p->u.l.label);
 	t = gettok();
 	expect(':');
 }
-- 
2.43.0


From 10a8d6aecab42dc1d4c4ee8313797046f59a9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 085/111] fix: q3rcc crashes on initializers that refer to
 symbols it has refused

---
 lcc/src/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 1891734..483a5c8 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -19,7 +19,7 @@ static int genconst(Tree e, int def) {
 	for (;;)
 		switch (generic(e->op)) {
 		case ADDRG:
-			if (def)
+			if (def && errcnt <= 0)
 				(*IR->defaddress)(e->u.sym);
 			return e->type->size;
 		case CNST:
-- 
2.43.0


From 1bdf0e743260d3924394791d521314492f877e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 086/111] fix: q3rcc crashes on uses of type names as variables

---
 lcc/src/expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 089e6d9..b2534ca 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -395,9 +395,11 @@ static Tree primary(void) {
 		   if (tsym->sclass == ENUM)
 		   	p = cnsttree(inttype, (long)tsym->u.value);
 		   else {
-		   	if (tsym->sclass == TYPEDEF)
+		   	if (tsym->sclass == TYPEDEF) {
 		   		error("illegal use of type name `%s'\n", tsym->name);
-		   	p = idtree(tsym);
+		   		p = cnsttree(inttype, 0L);
+		   	} else
+		   		p = idtree(tsym);
 		   } break;
 	case FIRSTARG:
 		if (level > PARAM && cfunc && cfunc->u.f.callee[0])
-- 
2.43.0


From cb00ebb0c429e4b320d252fbc2b0956fd9de9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 087/111] fix: q3rcc aborts after an assignment of a structure
 to a bit field

---
 lcc/src/enode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index d59c31b..6055a20 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -292,7 +292,9 @@ Tree asgntree(int op, Tree l, Tree r) {
 		r = cast(r, ty);
 	else {
 		typeerror(ASGN, l, r);
-		if (r->type == voidtype)
+		if (l->op == FIELD)
+			r = cnsttree(inttype, 0L);
+		else if (r->type == voidtype)
 			r = retype(r, inttype);
 		ty = r->type;
 	}
-- 
2.43.0


From a4b8bcf479d80b6aa5ee7d4d7ea013156b412523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 088/111] fix: q3rcc aborts on variables used only in deeply
 nested statements

---
 lcc/src/expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index b2534ca..8c7a125 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -437,7 +437,8 @@ Tree idtree(Symbol p) {
 		op = ADDRG;
 	} else
 		op = ADDRL;
-	p->ref += refinc;
+	/* a weight that underflowed to 0 would make p unused */
+	p->ref += refinc > 1e-20f ? refinc : 1e-20f;
 	if (isarray(ty))
 		e = tree(mkop(op,voidptype), p->type,      NULL, NULL);
 	else if (isfunc(ty))
-- 
2.43.0


From 775607cd11040b137309d8a4ded1036b3cbe4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 089/111] fix: q3rcc accepts character constants without a
 character

---
 lcc/src/lex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/lex.c b/lcc/src/lex.c
index aca482f..853b825 100644
--- a/lcc/src/lex.c
+++ b/lcc/src/lex.c
@@ -358,6 +358,8 @@ int gettok(void) {
 			char *s = scon(*--cp, cput, cbuf);
 			if (s - cbuf > 2)
 				warning("excess characters in multibyte character literal ignored\n");
+			else if (s - cbuf < 2)
+				error("empty character literal\n");
 			tval.type = inttype;
 			if (chartype->op == INT)
 				tval.u.c.v.i = extend(cbuf[0], chartype);
-- 
2.43.0


From 2550fed81ddb72e55b34776a637b959b4bf372be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 090/111] fix: a warning of q3rcc ran into the next message

---
 lcc/src/stmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index e8168fe..6f8230f 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -590,7 +590,7 @@ void branch(int lab) {
 		if (cp->kind == Label
 		&&  cp->u.forest->op == LABEL+V
 		&&  equal(cp->u.forest->syms[0], p))
-			warning("source code specifies an infinite loop");
+			warning("source code specifies an infinite loop\n");
 	}
 }
 void equatelab(Symbol old, Symbol new) {
-- 
2.43.0


From f4320b3080f928eb7f43899ce14bd1737d1cbf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 091/111] fix: q3rcc refuses functions that return a structure
 and do not end with a return statement

---
 lcc/src/decl.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 8855473..656ed50 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -777,8 +777,9 @@ static void funcdefn(int sclass, char *id, Type ty, Symbol params[], Coordinate
 			;
 		if (cp->kind != Jump) {
 			if (rty != voidtype) {
-				warning("missing return value\n");
-				retcode(cnsttree(inttype, 0L));
+				if (errcnt <= 0)
+					warning("missing return value\n");
+				retcode(isstruct(rty) ? NULL : cnsttree(inttype, 0L));
 			} else
 				retcode(NULL);
 		}
-- 
2.43.0


From aa1f33ecf9407f6c14f2ff62df9a6d837a393293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 092/111] fix: q3rcc warns about unreachable code that it did
 not generate because of errors

---
 lcc/src/stmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index 6f8230f..3b33f8a 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -25,7 +25,7 @@ static void whilestmt(int, Swtch, int);
 Code code(int kind) {
 	Code cp;
 
-	if (!reachable(kind))
+	if (!reachable(kind) && errcnt <= 0)
 		warning("unreachable code\n");
 
 	NEW(cp, FUNC);
-- 
2.43.0


From 219b5099c9c79bb94130ad33a884e2dec231140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 093/111] fix: lcc overflows a buffer when file names are long

---
 lcc/etc/lcc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lcc/etc/lcc.c b/lcc/etc/lcc.c
index a12799b..1175f79 100644
--- a/lcc/etc/lcc.c
+++ b/lcc/etc/lcc.c
@@ -816,13 +816,20 @@ char *strsave(const char *str) {
 
 /* stringf - format and return a string */
 char *stringf(const char *fmt, ...) {
-	char buf[1024];
+	char buf[1024], *s = buf;
+	int n;
 	va_list ap;
 
 	va_start(ap, fmt);
-	vsprintf(buf, fmt, ap);
+	n = vsnprintf(buf, sizeof buf, fmt, ap);
 	va_end(ap);
-	return strsave(buf);
+	if (n >= (int)sizeof buf) {
+		s = alloc(n + 1);
+		va_start(ap, fmt);
+		vsnprintf(s, n + 1, fmt, ap);
+		va_end(ap);
+	}
+	return strsave(s);
 }
 
 /* suffix - if one of tails[0..n-1] holds a proper suffix of name, return its index */
-- 
2.43.0


From 18cb18f0fb473c95257766a6fc06a1c1068f2080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 094/111] fix: lcc -lccdir reads beyond the list of include
 options

---
 lcc/etc/bytecodelcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/etc/bytecodelcc.c b/lcc/etc/bytecodelcc.c
index a6936db..523510c 100644
--- a/lcc/etc/bytecodelcc.c
+++ b/lcc/etc/bytecodelcc.c
@@ -16,7 +16,7 @@ char inputs[256] = "";
 char *cpp[] = { "q3cpp" BINEXT,
 	"-D__STDC__=1", "-D__STRICT_ANSI__", "-D__signed__=signed", "-DQ3_VM",
 	"$1", "$2", "$3", 0 };
-char *include[] = { 0 };
+char *include[] = { 0, 0 };	/* -lccdir sets the first */
 char *com[] = { "q3rcc" BINEXT, "-target=bytecode", "$1", "$2", "$3", 0 };
 char *ld[] = { 0 };
 char *as[] = { 0 };
-- 
2.43.0


From 733222ea766868e2811b4079ce7237fdc8c8fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 095/111] fix: q3vm copies overlapping blocks with memcpy

The blocks of the MEMCPY system call come from the bytecode and may overlap,
which is undefined behaviour of memcpy in the host.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 59f86e2..96be253 100644
--- a/src/main.c
+++ b/src/main.c
@@ -163,7 +163,7 @@ intptr_t systemCalls(vm_t* vm, intptr_t* args)
         if (VM_MemoryRangeValid(args[1] /*addr*/, args[3] /*len*/, vm) == 0 &&
             VM_MemoryRangeValid(args[2] /*addr*/, args[3] /*len*/, vm) == 0)
         {
-            memcpy(VMA(1, vm), VMA(2, vm), args[3]);
+            memmove(VMA(1, vm), VMA(2, vm), args[3]); /* might overlap */
         }
         return args[1];
 
-- 
2.43.0


From 92c1fcd2fe3e07363b3af7cafa474a5d6ed9e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 096/111] fix: lburg expects that the start symbol is stmt and
 the prefix _

With another start symbol or option -p the generated matcher did not compile.
---
 lcc/lburg/lburg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index c43c96a..de2668a 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -517,7 +517,7 @@ static void emitlabel(Term terms, Nonterm start, int ntnumber) {
 "%1struct %Pstate *p;\n\n"
 "%1if (!a)\n%2fatal(\"%Plabel\", \"Null tree\\n\", 0);\n");
 	print("%1STATE_LABEL(a) = p = allocate(sizeof *p, FUNC);\n"
-"%1p->rule._stmt = 0;\n");
+"%1p->rule.%P%S = 0;\n", start);
 	for (i = 1; i <= ntnumber; i++)
 		print("%1p->cost[%d] =\n", i);
 	print("%20x7fff;\n%1switch (OP_LABEL(a)) {\n");
-- 
2.43.0


From 92665a2438d9ddf6f1dee635670129456efab366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 097/111] fix: lburg writes to a file named - instead of the
 standard output

---
 lcc/lburg/lburg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index de2668a..6f3d365 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -63,7 +63,7 @@ int main(int argc, char *argv[]) {
 		} else if (outfp == NULL) {
 			if (strcmp(argv[i], "-") == 0)
 				outfp = stdout;
-			if ((outfp = fopen(argv[i], "w")) == NULL) {
+			else if ((outfp = fopen(argv[i], "w")) == NULL) {
 				yyerror("%s: can't write `%s'\n", argv[0], argv[i]);
 				exit(1);
 			}
-- 
2.43.0


From 584b8892294657e4aaa24c476f8ac3ed05db30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 098/111] fix: lburg does not end after the redefinition of a
 terminal

The terminal was linked into the list again, or a nonterminal into the
list of terminals.
---
 lcc/lburg/lburg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index 6f3d365..d439072 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -191,10 +191,11 @@ Nonterm nonterm(char *id) {
 Term term(char *id, int esn) {
 	Term p = lookup(id), *q = &terms;
 
-	if (p)
+	if (p) {
 		yyerror("redefinition of terminal `%s'\n", id);
-	else
-		p = install(id);
+		return p;	/* is already in the list */
+	}
+	p = install(id);
 	p->kind = TERM;
 	p->esn = esn;
 	p->arity = -1;
-- 
2.43.0


From 036e73de85d1fc8678b61958fd33c232d5a06724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 099/111] fix: lburg crashes on rules with errors

It went on to emit the matcher for terminals with inconsistent arity or
without rules, and fell over their missing operands.
---
 lcc/lburg/lburg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index d439072..1892915 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -81,6 +81,8 @@ int main(int argc, char *argv[]) {
 		if (!p->reached)
 			yyerror("can't reach nonterminal `%s'\n", p->name);
 	}
+	if (errcnt > 0)
+		return 1;	/* there is no matcher for these rules */
 	emitheader();
 	emitdefs(nts, ntnumber);
 	emitstruct(nts, ntnumber);
-- 
2.43.0


From 091f42b3e4a23228c751eb8677cd34dcc481fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 100/111] fix: lburg overflows its buffers on deep patterns and
 long names

---
 lcc/lburg/lburg.c | 53 ++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/lcc/lburg/lburg.c b/lcc/lburg/lburg.c
index 1892915..85a1b48 100644
--- a/lcc/lburg/lburg.c
+++ b/lcc/lburg/lburg.c
@@ -120,12 +120,17 @@ void *alloc(int nbytes) {
 /* stringf - format and save a string */
 static char *stringf(char *fmt, ...) {
 	va_list ap;
-	char buf[512];
+	char *str;
+	int n;
 
 	va_start(ap, fmt);
-	vsprintf(buf, fmt, ap);
+	n = vsnprintf(NULL, 0, fmt, ap);
 	va_end(ap);
-	return strcpy(alloc(strlen(buf) + 1), buf);
+	str = alloc(n + 1);
+	va_start(ap, fmt);
+	vsnprintf(str, n + 1, fmt, ap);
+	va_end(ap);
+	return str;
 }	
 
 struct entry {
@@ -467,19 +472,18 @@ static void emitheader(void) {
 	print("static int %Prule(void*, int);\n\n");
 }
 
-/* computekids - compute paths to kids in tree t */
-static char *computekids(Tree t, char *v, char *bp, int *ip) {
+/* computekids - append paths to kids in tree t to str */
+static char *computekids(Tree t, char *v, char *str, int *ip) {
 	Term p = t->op;
 
-	if (p->kind == NONTERM) {
-		sprintf(bp, "\t\tkids[%d] = %s;\n", (*ip)++, v);
-		bp += strlen(bp);
-	} else if (p->arity > 0) {
-		bp = computekids(t->left, stringf("LEFT_CHILD(%s)", v), bp, ip);
+	if (p->kind == NONTERM)
+		str = stringf("%s\t\tkids[%d] = %s;\n", str, (*ip)++, v);
+	else if (p->arity > 0) {
+		str = computekids(t->left, stringf("LEFT_CHILD(%s)", v), str, ip);
 		if (p->arity == 2)
-			bp = computekids(t->right, stringf("RIGHT_CHILD(%s)", v), bp, ip);
+			str = computekids(t->right, stringf("RIGHT_CHILD(%s)", v), str, ip);
 	}
-	return bp;
+	return str;
 }
 
 /* emitkids - emit _kids */
@@ -490,12 +494,11 @@ static void emitkids(Rule rules, int nrules) {
 
 	for (i = 0, r = rules; r; r = r->link) {
 		int j = 0;
-		char buf[1024], *bp = buf;
-		*computekids(r->pattern, "p", bp, &j) = 0;
+		char *buf = computekids(r->pattern, "p", "", &j);
 		for (j = 0; str[j] && strcmp(str[j], buf); j++)
 			;
 		if (str[j] == NULL)
-			str[j] = strcpy(alloc(strlen(buf) + 1), buf);
+			str[j] = buf;
 		r->kids = rc[j];
 		rc[j] = r;
 	}
@@ -530,17 +533,16 @@ static void emitlabel(Term terms, Nonterm start, int ntnumber) {
 "%2fatal(\"%Plabel\", \"Bad terminal %%d\\n\", OP_LABEL(a));\n%1}\n}\n\n");
 }
 
-/* computents - fill in bp with _nts vector for tree t */
-static char *computents(Tree t, char *bp) {
+/* computents - append _nts vector for tree t to str */
+static char *computents(Tree t, char *str) {
 	if (t) {
 		Nonterm p = t->op;
-		if (p->kind == NONTERM) {
-			sprintf(bp, "%s_%s_NT, ", prefix, p->name);
-			bp += strlen(bp);
-		} else
-			bp = computents(t->right, computents(t->left,  bp));
+		if (p->kind == NONTERM)
+			str = stringf("%s%s_%s_NT, ", str, prefix, p->name);
+		else
+			str = computents(t->right, computents(t->left,  str));
 	}
-	return bp;
+	return str;
 }
 
 /* emitnts - emit _nts ragged array */
@@ -550,13 +552,12 @@ static void emitnts(Rule rules, int nrules) {
 	char **str = alloc((nrules + 1)*sizeof *str);
 
 	for (i = 0, r = rules; r; r = r->link) {
-		char buf[1024];
-		*computents(r->pattern, buf) = 0;
+		char *buf = computents(r->pattern, "");
 		for (j = 0; str[j] && strcmp(str[j], buf); j++)
 			;
 		if (str[j] == NULL) {
 			print("static short %Pnts_%d[] = { %s0 };\n", j, buf);
-			str[j] = strcpy(alloc(strlen(buf) + 1), buf);
+			str[j] = buf;
 		}
 		nts[i++] = j;
 	}
-- 
2.43.0


From aa6e1afc31f758b05e45a7c55439f9ee4faeebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 101/111] fix: lburg crashes on a file that ends with a rule
 without newline

---
 lcc/lburg/gram.c | 2 +-
 lcc/lburg/gram.y | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/lburg/gram.c b/lcc/lburg/gram.c
index 94fd3b3..4f00aef 100644
--- a/lcc/lburg/gram.c
+++ b/lcc/lburg/gram.c
@@ -1600,7 +1600,7 @@ int yylex(void) {
 		bp += strspn(bp, " \t\f");
 		p = strchr(bp, '\n');
 		if (p == NULL)
-			p = strchr(bp, '\n');
+			p = strchr(bp, '\0');
 		while (p > bp && isspace(p[-1]))
 			p--;
 		yylval.string = alloc(p - bp + 1);
diff --git a/lcc/lburg/gram.y b/lcc/lburg/gram.y
index c0a9c94..1d4d89f 100644
--- a/lcc/lburg/gram.y
+++ b/lcc/lburg/gram.y
@@ -117,7 +117,7 @@ int yylex(void) {
 		bp += strspn(bp, " \t\f");
 		p = strchr(bp, '\n');
 		if (p == NULL)
-			p = strchr(bp, '\n');
+			p = strchr(bp, '\0');
 		while (p > bp && isspace(p[-1]))
 			p--;
 		yylval.string = alloc(p - bp + 1);
-- 
2.43.0


From ce823f4e6a9b2adc933bbb527065bbb652eb3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 102/111] fix: lburg reads in front of its buffer if the file
 ends with a number

---
 lcc/lburg/gram.c | 3 ++-
 lcc/lburg/gram.y | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/lburg/gram.c b/lcc/lburg/gram.c
index 4f00aef..a10fada 100644
--- a/lcc/lburg/gram.c
+++ b/lcc/lburg/gram.c
@@ -1655,7 +1655,8 @@ int yylex(void) {
 					n = 10*n + d;
 				c = get();
 			} while (c != EOF && isdigit(c));
-			bp--;
+			if (c != EOF)
+				bp--;
 			yylval.n = n;
 			return INT;
 		} else if (isalpha(c)) {
diff --git a/lcc/lburg/gram.y b/lcc/lburg/gram.y
index 1d4d89f..d543985 100644
--- a/lcc/lburg/gram.y
+++ b/lcc/lburg/gram.y
@@ -172,7 +172,8 @@ int yylex(void) {
 					n = 10*n + d;
 				c = get();
 			} while (c != EOF && isdigit(c));
-			bp--;
+			if (c != EOF)
+				bp--;
 			yylval.n = n;
 			return INT;
 		} else if (isalpha(c)) {
-- 
2.43.0


From ee2c2bce7590bc3ee8fe9173642fde9fc85cbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 103/111] fix: value of the assignment of a constant that does
 not fit to a signed bit field

The constant was only reduced to the width of the field when its sign bit
was set; y = (s.f = 9) with a field of 3 bits gave y the value 9.
---
 lcc/src/enode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index 6055a20..1ec8374 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -322,6 +322,8 @@ Tree asgntree(int op, Tree l, Tree r) {
 				n = r->u.v.i;
 				if (n&(1<<(fieldsize(l->u.field)-1)))
 					n |= ~0UL<<fieldsize(l->u.field);
+				else
+					n &= fieldmask(l->u.field);
 				r = cnsttree(r->type, n);
 			} else
 				r = shtree(RSH,
-- 
2.43.0


From c735cfc0cf526d82c3cd656fb58ec21aebe31cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 104/111] fix: type of an operand of ?: in #if that divides by
 zero and is not taken

---
 lcc/cpp/eval.c | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 91f8d8d..6e4f460 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -4,7 +4,7 @@
 
 #define	SGN	0
 #define	UNS	1
-#define	UND	2
+#define	UND	2	/* with UNS: undefined value of unsigned type */
 
 #define	UNSMARK	0x1000
 
@@ -207,7 +207,7 @@ eval(Tokenrow *trp, int kw)
 		error(ERROR, "Botch in #if/#elsif");
 		return 0;
 	}
-	if (vals[0].type==UND)
+	if (vals[0].type&UND)
 		error(ERROR, "Undefined expression value");
 	return vals[0].val;
 syntax:
@@ -248,23 +248,15 @@ evalop(int tok)
 			return 1;
 		case ARITH:
 		case RELAT:
-			if (v1.type==UNS || v2.type==UNS)
-				rtype = UNS;
-			else
-				rtype = SGN;
-			if (v1.type==UND || v2.type==UND)
-				rtype = UND;
-			if (priority[oper].ctype==RELAT && rtype==UNS) {
+			rtype = v1.type | v2.type;
+			if (priority[oper].ctype==RELAT && (rtype&UNS)) {
 				oper |= UNSMARK;
-				rtype = SGN;
+				rtype &= ~UNS;
 			}
 			break;
 		case SHIFT:
-			if (v1.type==UND || v2.type==UND)
-				rtype = UND;
-			else
-				rtype = v1.type;
-			if (rtype==UNS)
+			rtype = v1.type | (v2.type&UND);
+			if (rtype&UNS)
 				oper |= UNSMARK;
 			break;
 		case UNARY:
@@ -305,10 +297,10 @@ evalop(int tok)
 			rv1 = (unsigned long)rv1>>rv2; break;
 		case LAND:
 			rtype = UND;
-			if (v1.type==UND)
+			if (v1.type&UND)
 				break;
 			if (rv1!=0) {
-				if (v2.type==UND)
+				if (v2.type&UND)
 					break;
 				rv1 = rv2!=0;
 			} else
@@ -317,10 +309,10 @@ evalop(int tok)
 			break;
 		case LOR:
 			rtype = UND;
-			if (v1.type==UND)
+			if (v1.type&UND)
 				break;
 			if (rv1==0) {
-				if (v2.type==UND)
+				if (v2.type&UND)
 					break;
 				rv1 = rv2!=0;
 			} else
@@ -336,8 +328,6 @@ evalop(int tok)
 		case MINUS:
 			rv1 -= rv2; break;
 		case UMINUS:
-			if (v1.type==UND)
-				rtype = UND;
 			rv1 = -rv1; break;
 		case OR:
 			rv1 |= rv2; break;
@@ -346,23 +336,23 @@ evalop(int tok)
 		case TILDE:
 			rv1 = ~rv1; break;
 		case NOT:
-			rv1 = !rv1; if (rtype!=UND) rtype = SGN; break;
+			rv1 = !rv1; rtype &= ~UNS; break;
 		case SLASH:
 			if (rv2==0) {
-				rtype = UND;
+				rtype |= UND;
 				break;
 			}
-			if (rtype==UNS)
+			if (rtype&UNS)
 				rv1 /= (unsigned long)rv2;
 			else
 				rv1 /= rv2;
 			break;
 		case PCT:
 			if (rv2==0) {
-				rtype = UND;
+				rtype |= UND;
 				break;
 			}
-			if (rtype==UNS)
+			if (rtype&UNS)
 				rv1 %= (unsigned long)rv2;
 			else
 				rv1 %= rv2;
@@ -377,8 +367,7 @@ evalop(int tok)
 					rtype = v2.type;
 					rv1 = v2.val;
 				}
-				if (rtype==SGN && (v1.type==UNS || v2.type==UNS))
-					rtype = UNS;
+				rtype |= (v1.type|v2.type) & UNS;
 			}
 			break;
 		case DEFINED:
-- 
2.43.0


From 401cd301c75ffdd3ec52d188bf14cd36e689dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 105/111] fix: the debug trace of OP_ENTER names the function
 entered (OP_ENTER takes two words)

---
 src/vm/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9395cea..fb5b0f1 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1211,9 +1211,9 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             if (vm_debugLevel)
             {
                 Com_Printf("%s%i---> %s\n", VM_Indent(vm), opStackOfs,
-                           VM_ValueToSymbol(vm, programCounter - 5));
+                           VM_ValueToSymbol(vm, programCounter - 2));
                 if (vm->breakFunction &&
-                    programCounter - 5 == vm->breakFunction)
+                    programCounter - 2 == vm->breakFunction)
                 {
                     /* this is to allow setting breakpoints here in the
                      * debugger */
-- 
2.43.0


From 5ee375e622f3cbc75fd58262fdcbc1e633cb6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 106/111] fix: VM_VmProfile_f divides by zero if nothing has
 been executed

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index fb5b0f1..4bdde48 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2075,7 +2075,7 @@ void VM_VmProfile_f(const vm_t* vm)
 
         sym = sorted[i];
 
-        perc = (int)(100 * (float)sym->profileCount / total);
+        perc = total > 0 ? (int)(100 * (float)sym->profileCount / total) : 0;
         Com_Printf("%2i%% %9i %s\n", perc, sym->profileCount, sym->symName);
         sym->profileCount = 0;
     }
-- 
2.43.0


From 3fca3e2ee44eccf49b85a3e45e400a334190dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 107/111] fix: the symbol file of a VM in a directory with a
 dot in its name was not found

---
 src/vm/vm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 4bdde48..815cdd1 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1724,7 +1724,13 @@ static int ParseHex(const char* text)
 
 static void COM_StripExtension(const char* in, char* out)
 {
-    while (*in && *in != '.')
+    const char* end = strrchr(in, '.');
+
+    if (!end || strpbrk(end, "/\\"))
+    {
+        end = in + strlen(in); /* no extension */
+    }
+    while (in != end)
     {
         *out++ = *in++;
     }
-- 
2.43.0


From c867f8bab39ee42a2fc2c4264a3d064903ee0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 108/111] fix: q3rcc: 0 - INT_MIN is an overflow in a constant
 expression

---
 lcc/src/simp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 8a2e0e7..3d2f22c 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -52,7 +52,7 @@
 int needconst;
 int explicitCast;
 static int addi(long x, long y, long min, long max, int needconst) {
-	int cond = x == 0 || y == 0
+	int cond = (x == 0 && y <= max) || y == 0
 	|| (x < 0 && y < 0 && x >= min - y)
 	|| (x < 0 && y > 0)
 	|| (x > 0 && y < 0)
-- 
2.43.0


From b5ebbbaa72718cfeb832cfb6d8dda14735e2dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:46 +0000
Subject: [PATCH 109/111] fix: q3rcc: -P printed arrays of unknown size as [0]

---
 lcc/src/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/types.c b/lcc/src/types.c
index 4aa3d18..eb14bf8 100644
--- a/lcc/src/types.c
+++ b/lcc/src/types.c
@@ -735,7 +735,7 @@ char *typestring(Type ty, char *str) {
 		case ARRAY:
 			if ((p = findtype(ty)) != NULL)
 				return *str ? stringf("%s %s", p->name, str) : p->name;
-			if (ty->type && ty->type->size > 0)
+			if (ty->size > 0 && ty->type && ty->type->size > 0)
 				str = stringf("%s[%d]", str, ty->size/ty->type->size);
 			else
 				str = stringf("%s[]", str);
-- 
2.43.0


From ae6bc8ac8aba840469874048362b0a16edcfb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:39 +0000
Subject: [PATCH 110/111] fix: q3rcc: only half of a wide string literal was
 kept

The lexer holds one unsigned int for every character and doconst reads
them again as such, but primary copied as many bytes as the array of
wide characters has: what followed came from beyond the copy.
---
 lcc/src/expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 8c7a125..33d89fa 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -347,8 +347,10 @@ static Tree primary(void) {
  break;
 	case SCON: if (ischar(tsym->type->type))
 		   	tsym->u.c.v.p = stringn(tsym->u.c.v.p, tsym->type->size);
-		   else
-		   	tsym->u.c.v.p = memcpy(allocate(tsym->type->size, PERM), tsym->u.c.v.p, tsym->type->size);
+		   else {
+		   	int n = tsym->type->size/widechar->size*sizeof (unsigned int);
+		   	tsym->u.c.v.p = memcpy(allocate(n, PERM), tsym->u.c.v.p, n);
+		   }
 		   tsym = constant(tsym->type, tsym->u.c.v); 
 		   if (tsym->u.c.loc == NULL)
 		   	tsym->u.c.loc = genident(STATIC, tsym->type, GLOBAL);
-- 
2.43.0


From 5efd670f6a4ff70332f30383e0b581de0e301b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:39 +0000
Subject: [PATCH 111/111] fix: q3rcc: adjacent wide string literals were not
 joined

---
 lcc/src/lex.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lcc/src/lex.c b/lcc/src/lex.c
index 853b825..a45fd83 100644
--- a/lcc/src/lex.c
+++ b/lcc/src/lex.c
@@ -812,6 +812,20 @@ static void *wcput(int c, void *cl) {
 	return s;
 }
 
+/* another - is the next token one more part of a string? leaves cp at its quote */
+static int another(int wide) {
+	if (getchr() == '"')
+		return 1;
+	if (!wide || *cp != 'L')
+		return 0;
+	if (limit - cp < 2)
+		fillbuf();
+	if (cp[1] != '"')
+		return 0;
+	cp++;
+	return 1;
+}
+
 static void *scon(int q, void *put(int c, void *cl), void *cl) {
 	int n = 0, nbad = 0;
 
@@ -848,7 +862,7 @@ static void *scon(int q, void *put(int c, void *cl), void *cl) {
 			cp++;
 		else
 			error("missing %c\n", q);
-	} while (q == '"' && getchr() == '"');
+	} while (q == '"' && another(put == wcput));
 	cl = put(0, cl);
 	if (n >= BUFSIZE)
 		error("%s literal too long\n", q == '"' ? "string" : "character");
-- 
2.43.0

