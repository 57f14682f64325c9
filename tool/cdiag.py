"""Violated constraints and syntax rules of C89, one line each, and the messages of the compiler.

Kinds: b statement in a function, t declaration at file scope, f statement of a function of its own with type
int (fv void, fi int without a final return, fp pointer, fs structure).  @ is a fresh suffix for names, $ the position of the line."""
SEMANTIC = [
    ('b', 'out(und@);', ["undeclared identifier `und@'"]),
    ('b', '{ const int c = 1; c = 2; }', ["assignment to const identifier `c'"]),
    ('b', '{ int a; a + 1 = 2; }', ['lvalue required']),
    ('b', '{ int a; float *p; p = &a; }', ["operands of = have illegal types `pointer to float' and `pointer to int'"]),
    ('b', '{ struct bs@ { int a; } x; int y; x.a = 1; y = x; }', ["operands of = have illegal types `int' and `struct bs@'"]),
    ('b', '{ struct bs@ { int a; } x; x = 5; }', ["operands of = have illegal types `struct bs@' and `int'"]),
    ('b', 'out2(1);', ["insufficient number of arguments to `out2'"]),
    ('b', 'out(1, 2);', ["too many arguments to `out'"]),
    ('b', '{ struct bs@ { int a; } x; x.a = 1; out(x); }', ["type error in argument 1 to `out'; found `struct bs@' expected `int'"]),
    ('b', '{ struct bs@ { int a; } x; x.b = 1; }', ["unknown field `b' of `struct bs@'"]),
    ('b', '{ struct bs@ { int a; } x, *p; p = &x; p.a = 1; }', ["left operand of . has incompatible type `pointer to struct bs@'", "operands of = have illegal types `pointer to struct bs@' and `int'"]),
    ('b', '{ struct bs@ { int a; } x; x->a = 1; }', ["left operand of -> has incompatible type `struct bs@'", "operands of = have illegal types `struct bs@' and `int'"]),
    ('b', '{ int a; a.b = 1; }', ["left operand of . has incompatible type `int'"]),
    ('b', '{ int a; a = 0; *a = 1; }', ['type error: pointer expected']),
    ('b', '{ struct bs@ { int a : 3; } x; int *p; p = &x.a; }', ['lvalue required', "operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ register int a; int *p; p = &a; }', ["invalid operand of unary &; `a' is declared register"]),
    ('b', 'out(sizeof (int (void)));', ["invalid type argument `int function(void)' to `sizeof'"]),
    ('b', 'out(sizeof out);', ["invalid type argument `int function(int)' to `sizeof'"]),
    ('b', '{ struct bs@ { int a : 3; } x; out(sizeof x.a); }', ["`sizeof' applied to a bit field"]),
    ('b', 'out(sizeof (struct incomplete@));', ["invalid type argument `incomplete struct incomplete@ defined at $' to `sizeof'"]),
    ('b', 'out(sizeof (void));', ["invalid type argument `void' to `sizeof'"]),
    ('b', '{ int a; a = 0; a(1); }', ["found `int' expected a function"]),
    ('b', '{ int a; a = 0; a[0] = 1; }', ['type error: pointer expected']),
    ('f', 'break;', ['illegal break statement']),
    ('f', 'continue;', ['illegal continue statement']),
    ('f', 'case 1: ;', ['illegal case label']),
    ('f', 'default: ;', ['illegal default label']),
    ('b', 'switch (1) { case 1: ; case 2: ; case 1: ; }', ["duplicate case label `1'"]),
    ('b', 'switch (1) { default: ; default: ; }', ['extra default label']),
    ('b', '{ int a; a = 0; switch (1) { case a: ; } }', ['case label must be a constant integer expression']),
    ('b', 'switch (1.5f) { case 1: ; }', ["illegal type `float' in switch expression"]),
    ('f', 'goto nolabel@;', ["undefined label `nolabel@'"]),
    ('f', 'lab1@: ; lab1@: ;', ["redefinition of label `lab1@' previously defined at $"]),
    ('fv', 'return 1;', ['extraneous return value']),
    ('b', '{ int a; int a; }', ["redeclaration of `a' previously declared at $"]),
    ('b', '{ int a; float a; }', ["redeclaration of `a' previously declared at $"]),
    ('t', 'int badf@(int a, int a) { return 1; }', ["duplicate declaration for `a' previously declared at $"]),
    ('t', 'int bada@[2](void);', ["illegal type `array of int function(void)'"]),
    ('t', 'int badf@(void)[2];', ["illegal return type `array 2 of int'"]),
    ('t', 'int badf@(void)(void);', ["illegal return type `int function(void)'"]),
    ('t', 'void bada@[2];', ["illegal type `array of void'", "undefined size for `incomplete array of void bada@'"]),
    ('t', 'void badv@;', ["undefined size for `void badv@'"]),
    ('b', '{ void v; }', ["undefined size for `void v'"]),
    ('t', 'struct bs@ { struct bs@ a; };', ["undefined size for field `incomplete struct bs@ defined at $ a'"]),
    ('t', 'struct inc@ badv@;', ["undefined size for `incomplete struct inc@ defined at $ badv@'"]),
    ('b', '{ struct inc@ v; }', ["undefined size for `incomplete struct inc@ defined at $ v'"]),
    ('t', 'struct bs@ { int a; float a; };', ["duplicate field name `a' in `incomplete struct bs@ defined at $'"]),
    ('t', 'struct bs@ { int a : 33; };', ["`33' is an illegal bit-field size"]),
    ('t', 'struct bs@ { int a : -1; };', ["`-1' is an illegal bit-field size"]),
    ('t', 'struct bs@ { float a : 3; };', ["`float' is an illegal bit-field type"]),
    ('t', 'struct bs@ { int f(void); };', ["`int function(void)' is an illegal field type"]),
    ('t', 'struct bs@ { void a; };', ["undefined size for field `void a'"]),
    ('t', 'struct bs@ { int a; }; struct bs@ { int b; };', ["redefinition of `bs@' previously defined at $"]),
    ('t', 'enum be@ { E1x@ = 1.5 };', ['integer expression must be constant']),
    ('t', 'enum be@ { E1x@, E1x@ };', ["redeclaration of `E1x@' previously declared at $"]),
    ('t', 'enum be@ { E1x@ }; enum be@ { E2x@ };', ["redefinition of `be@' previously defined at $"]),
    ('t', 'struct bs@ { int a; }; union bs@ badv@;', ["redefinition of `bs@' previously defined at $", "undefined size for `incomplete union bs@ defined at $ badv@'"]),
    ('t', 'int bada@[2] = { 1, 2, 3 };', ['too many initializers']),
    ('t', 'int bada@[-1];', ["`-1' is an illegal array size"]),
    ('t', 'int bada@[0];', ["`0' is an illegal array size"]),
    ('t', 'int bg@; int badv@ = bg@;', ['initializer must be constant']),
    ('t', 'char bada@[2] = "abc";', ['too many initializers']),
    ('t', 'int *badp@ = 5.0;', ["invalid initialization type; found `double' expected `pointer to int'"]),
    ('t', 'int badv@ = "abc";', ["invalid initialization type; found `pointer to char' expected `int'"]),
    ('t', 'struct bs@ { int a; } badv@ = 1;', ["missing { in initialization of `struct bs@'"]),
    ('b', 'if (1) { struct bs@ { int a; } x; x.a = 1; if (x) ; }', ["operands of != have illegal types `struct bs@' and `int'"]),
    ('b', '{ struct bs@ { int a; } x; x.a = 1; while (x) ; }', ["operands of != have illegal types `struct bs@' and `int'"]),
    ('b', '{ struct bs@ { int a; } x; x.a = 1; out(!x); }', ["operand of unary ! has illegal type `struct bs@'", "type error in argument 1 to `out'; found `struct bs@' expected `int'"]),
    ('b', 'out(5 % 2.0);', ["operands of % have illegal types `int' and `double'"]),
    ('b', 'out(~1.5f);', ["operand of unary ~ has illegal type `float'"]),
    ('b', 'out(1 << 2.0f);', ["operands of << have illegal types `int' and `float'"]),
    ('b', 'out(1.5f & 1);', ["operands of & have illegal types `float' and `int'"]),
    ('b', '{ int *p; p = 0; p = p + p; }', ["operands of + have illegal types `pointer to int' and `pointer to int'", "operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p; p = 0; p = p * 2; }', ["operands of * have illegal types `pointer to int' and `int'", "operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p; p = 0; p = -p; }', ["operand of unary - has illegal type `pointer to int'"]),
    ('b', '{ int *p; p = 0; p = 1 - p; }', ["operands of - have illegal types `int' and `pointer to int'", "operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p; float *q; p = 0; q = 0; out(p - q); }', ["operands of - have illegal types `pointer to int' and `pointer to float'"]),
    ('b', '{ int *p; float *q; p = 0; q = 0; out(p < q); }', ["operands of < have illegal types `pointer to int' and `pointer to float'"]),
    ('b', '{ int *p; float *q; p = 0; q = 0; out(p == q); }', ["operands of == have illegal types `pointer to int' and `pointer to float'"]),
    ('b', '{ int *p; p = 0; out(p == 5); }', ["operands of == have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p; p = 5; }', ["operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p; int i; p = 0; i = p; }', ["operands of = have illegal types `int' and `pointer to int'"]),
    ('b', '{ int *p; p = 1.5f; }', ["operands of = have illegal types `pointer to int' and `float'"]),
    ('b', '&5;', ['lvalue required']),
    ('b', '++5;', ['lvalue required']),
    ('b', 'out(5++);', ['lvalue required']),
    ('b', '{ struct bs@ { int a; } x; x.a = 1; out((int)x); }', ["cast from `struct bs@' to `int' is illegal"]),
    ('b', '{ struct bs@ { int a; } x; x = (struct bs@)1; }', ["cast from `int' to `struct bs@' is illegal", "operands of = have illegal types `struct bs@' and `int'"]),
    ('b', '{ int *p; p = (int *)1.5f; }', ["cast from `float' to `pointer to int' is illegal", "operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p; float f; p = 0; f = (float)p; }', ["cast from `pointer to int' to `float' is illegal"]),
    ('b', '{ int a[2]; a = 0; }', ["operands of = have illegal types `array 2 of int' and `int'", 'lvalue required']),
    ('b', '{ int a[2]; int b[2]; a = b; }', ["operands of = have illegal types `array 2 of int' and `pointer to int'", 'lvalue required']),
    ('b', 'out(1 ? out : 1.5f);', ["operands of ?: have illegal types `pointer to int function(int)' and `float'"]),
    ('b', '{ struct bs@ { int a; } x; x.a = 1; out(1 ? x : 1); }', ["operands of ?: have illegal types `struct bs@' and `int'"]),
    ('b', 'out((void)0);', ["type error in argument 1 to `out'; found `void' expected `int'"]),
    ('b', '{ int i; i = (void)0; }', ["operands of = have illegal types `int' and `void'"]),
    ('b', '{ void *p; p = 0; *p; out(*p); }', ["type error in argument 1 to `out'; found `void' expected `int'"]),
    ('b', '{ void *p; p = 0; p++; }', ["unknown size for type `void'"]),
    ('b', '{ void *p; p = 0; p = p + 1; }', ["unknown size for type `void'"]),
    ('b', '{ typedef int T; out(T); }', ["illegal use of type name `T'"]),
    ('t', 'static extern int badv@;', ["invalid use of `extern'"]),
    ('t', 'typedef static int badt@;', ["invalid use of `static'"]),
    ('t', 'int int badv@;', ["invalid use of `int'"]),
    ('t', 'long float badv@;', ['invalid type specification']),
    ('t', 'unsigned float badv@;', ['invalid type specification']),
    ('t', 'short char badv@;', ['invalid type specification']),
    ('t', 'signed unsigned badv@;', ["invalid use of `unsigned'"]),
    ('t', 'unsigned struct bs@ { int a; } badv@;', ['invalid type specification']),
    ('t', 'const const int badv@;', ["invalid use of `const'"]),
    ('t', 'auto int badv@;', ["invalid use of `auto'", "invalid storage class `auto' for `int badv@'"]),
    ('t', 'register int badv@;', ["invalid use of `register'", "invalid storage class `register' for `int badv@'"]),
    ('t', 'int badf@(int a = 1) { return a; }', ["illegal initialization for parameter `a'"]),
    ('t', 'int badf@(static int a) { return a; }', ['missing parameter type', "invalid storage class `static' for `int a'"]),
    ('t', 'int badf@(int); float badf@(int);', ["redeclaration of `badf@' previously declared at $"]),
    ('t', 'int badf@(int); int badf@(float);', ["redeclaration of `badf@' previously declared at $"]),
    ('t', 'int badf@(int); int badf@(int, int);', ["redeclaration of `badf@' previously declared at $"]),
    ('t', 'int badf@(int a) { return a; } int badf@(int a) { return a; }', ["redefinition of `badf@' previously defined at $"]),
    ('t', 'int badv@ = 1; int badv@ = 2;', ["redefinition of `badv@' previously defined at $"]),
    ('t', 'int badv@; float badv@;', ["redeclaration of `badv@' previously declared at $"]),
    ('t', 'int badv@; typedef int badv@;', ["redeclaration of `badv@'"]),
    ('t', 'int badf@(int); int badf@;', ["redeclaration of `badf@' previously declared at $"]),
    ('t', 'static int badf@(void); int bad2@(void) { return badf@(); }', ["undefined static `int function(void) badf@'"]),
    ('t', 'int badf@(int a, float) { return a; }', ["missing name for parameter 2 to function `badf@'"]),
    ('t', 'int badf@(void, int);', ['illegal formal parameter types']),
    ('t', 'int badf@(int a, void b);', ['illegal formal parameter types']),
    ('t', 'int badf@(a, b) int a; int c; { return a; }', ["declared parameter `c' is missing"]),
    ('t', 'int badf@(a, b) int a; int a; { return a; }', ["duplicate declaration for `a' previously declared at $"]),
    ('t', 'struct bs@ { int a; } int;', ["invalid use of `int'", 'empty declaration']),
    ('t', 'struct bs@ { };', ['invalid struct field declarations']),
    ('t', 'struct { int a; };', ['empty declaration']),
    ('t', 'int;', ['empty declaration']),
    ('t', 'enum be@ { };', ['expecting an enumerator identifier']),
    ('t', 'return 1;', ['unrecognized declaration', 'unrecognized declaration']),
    ('t', '}', ['unrecognized declaration']),
    ('b', "out('');", ['empty character literal']),
    ('b', 'out(@);', ["illegal character `@'", "insufficient number of arguments to `out'"]),
    ('b', 'out(`);', ["illegal character ``'", "insufficient number of arguments to `out'"]),
    ('b', "out('\\xg');", ["ill-formed hexadecimal escape sequence `\\xg'"]),
    ('b', 'out(0x);', ["invalid hexadecimal constant `0x'"]),
    ('b', 'out(09);', ["invalid octal constant `09'"]),
    ('b', 'out(1e);', ["invalid floating constant `1e'"]),
    ('b', 'out(0x1g);', ["`0x1g' is a preprocessing number but an invalid integer constant"]),
    ('b', 'out(1lll);', ["`1lll' is a preprocessing number but an invalid integer constant"]),
    ('b', '{ extern int ee@ = 1; }', ["illegal initialization of `extern ee@'"]),
    ('b', '{ static int a; static int c = a; }', ['initializer must be constant']),
    ('b', '{ int a[] ; }', ["undefined size for `incomplete array of int a'"]),
    ('b', '{ int a[2] = { 1, 2, 3 }; }', ['too many initializers']),
    ('b', '{ static int f(void); }', ["invalid storage class `static' for `int function(void) f'"]),
    ('b', '{ int a; a = 0; out(a->x); }', ["left operand of -> has incompatible type `int'"]),
    ('b', 'out(out2->x);', ["left operand of -> has incompatible type `pointer to int function(int,int)'", "type error in argument 1 to `out'; found `pointer to int function(int,int)' expected `int'"]),
    ('b', '{ const struct { int a; } x = { 1 }; x.a = 1; }', ["assignment to const identifier `x'"]),
    ('b', '{ struct { const int a; } x, y = { 1 }; x = y; }', ["assignment to const identifier `x'"]),
    ('b', '{ const int *p; int a; a = 0; p = &a; *p = 1; }', ['assignment to const location']),
    ('b', '{ const int *p; int *q; int a; a = 0; p = &a; q = p; }', ["operands of = have illegal types `pointer to int' and `pointer to const int'"]),
    ('b', '{ const int c = 1; c++; }', ["assignment to const identifier `c'"]),
    ('b', '{ const int c = 1; c += 1; }', ["assignment to const identifier `c'"]),
    ('b', '{ int *const p = 0; p = 0; }', ["assignment to const identifier `p'"]),
    ('b', 'out2 = 0;', ["operands of = have illegal types `int function(int,int)' and `int'", 'lvalue required']),
    ('b', '{ int (*p)(int); p = outf; }', ["operands of = have illegal types `pointer to int function(int)' and `pointer to int function(float)'"]),
    ('b', '{ int (*p)(int); int *q; p = out; q = p; }', ["operands of = have illegal types `pointer to int' and `pointer to int function(int)'"]),
    ('fi', '{ struct bs@ { int a; } x; x.a = 1; return x; }', ["illegal return type; found `struct bs@' expected `int'"]),
    ('fi', '{ int *p; p = 0; return p; }', ["illegal return type; found `pointer to int' expected `int'"]),
    ('fi', 'return (void)0;', ["illegal return type; found `void' expected `int'"]),
    ('fp', 'return 1;', ["illegal return type; found `int' expected `pointer to int'"]),
    ('fs', 'return 1;', ["illegal return type; found `int' expected `struct defined at t.c:5'"]),
    ('t', 'struct bs@; struct bs@ badv@ = { 1 };', ["cannot initialize undefined `incomplete struct bs@ defined at $'", "skipping `{' `1' `}'"]),
    ('t', 'int bada@[1000000000];', ["size of `array of int' exceeds 2147483647 bytes"]),
    ('t', 'struct bs@ { char a[2000000000]; char b[2000000000]; };', ["size of `struct bs@' exceeds 2147483647 bytes"]),
    ('t', 'enum be@ badv@;', ["unknown enumeration `be@'"]),
    ('t', 'enum be@ { BA@ = 2147483647, BB@ };', ["overflow in value for enumeration constant `BB@'"]),
    ('t', 'enum be@ { BA@ = "a" };', ['integer expression must be constant']),
    ('t', 'int badf@(struct bs@ x) { return 1; }', ["undefined size for parameter `incomplete struct bs@ defined at $ x'"]),
    ('t', 'int badf@(a) struct bs@ a; { return 1; }', ["undefined size for parameter `incomplete struct bs@ defined at $ a'"]),
    ('t', 'int badf@(int); int badf@(a) float a; { return a; }', ["conflicting argument declarations for function `badf@'"]),
    ('t', 'int badf@(int); int badf@(a, b) int a, b; { return a; }', ["conflicting argument declarations for function `badf@'"]),
    ('t', 'int badf@(a, b);', ['extraneous old-style parameter list']),
    ('t', 'int (*badf@)(a);', ['extraneous old-style parameter list']),
    ('t', 'struct bs@ { int a; int; };', ['field name missing']),
    ('t', 'struct bs@ { int *; };', ['field name missing']),
    ('t', 'int badi@ = (int)&badi@;', ["cast from `pointer to int' to `unsigned int' is illegal in constant expressions"]),
    ('b', 'goto;', ['missing label in goto']),
    ('b', 'out(=);', ['illegal expression']),
    ('b', '{ int a, ; }', ['missing identifier']),
    ('t', 'int bada@[2][];', ['missing array size', "undefined size for `incomplete array of incomplete array of int bada@'"]),
    ('t', 'int bada@[2][] = { { 1 }, { 2 } };', ['missing array size']),
    ('t', 'int badf@(int a[2][]);', ['missing array size']),
    ('t', 'int bada@[1.5];', ['integer expression must be constant']),
    ('t', 'int bada@[badb@];', ["undeclared identifier `badb@'", 'integer expression must be constant']),
    ('b', '{ int n; int a[n]; n = 1; }', ['integer expression must be constant']),
    ('b', '{ switch (1) { case badn@: ; } }', ["undeclared identifier `badn@'", 'case label must be a constant integer expression']),
    ('b', '{ int n; n = 1; switch (1) { case n: ; } }', ['case label must be a constant integer expression']),
    ('t', 'struct bs@ { int a(void); };', ["`int function(void)' is an illegal field type"]),
    ('t', 'struct bs@ { int a; int a; };', ["duplicate field name `a' in `incomplete struct bs@ defined at $'"]),
    ('t', 'struct bs@ { int a; }; enum bs@ { BA@ };', ["redefinition of `bs@' previously defined at $"]),
    ('t', 'int (badf@(void))(void);', ["illegal return type `int function(void)'"]),
    ('b', '{ char a[2] = "abc"; }', ['too many initializers']),
    ('b', '{ int a[2] = "a"; }', ["missing { in initialization of `array 2 of const int'", "invalid initialization type; found `pointer to char' expected `int'"]),
    ('b', '{ struct { int a; } x = 1; }', ["operands of = have illegal types `struct defined at $' and `int'"]),
    ('b', '{ int *p = 1; }', ["operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p = 0; float *q = p; }', ["operands of = have illegal types `pointer to float' and `pointer to int'"]),
    ('f', '{ default: ; }', ['illegal default label']),
    ('b', '{ switch (1) { case 1: case 1: ; } }', ["duplicate case label `1'"]),
    ('b', '{ switch (1) { default: default: ; } }', ['extra default label']),
    ('b', 'lb@: lb@: ;', ["redefinition of label `lb@' previously defined at $"]),
    ('b', '{ switch (1.5f) { } }', ["illegal type `float' in switch expression"]),
    ('b', '{ struct { int a; } x; x.a = 1; if (x) ; }', ["operands of != have illegal types `struct defined at $' and `int'"]),
    ('b', '{ struct { int a; } x; x.a = 1; !x; }', ["operand of unary ! has illegal type `struct defined at $'"]),
    ('b', '{ float f; f = 1; f << 1; }', ["operands of << have illegal types `float' and `int'"]),
    ('b', '{ float f; f = 1; out(~f); }', ["operand of unary ~ has illegal type `float'"]),
    ('b', '{ float f; f = 1; out(f % 2); }', ["operands of % have illegal types `float' and `int'"]),
    ('b', '{ int *p, *q; p = q = 0; out(p + q); }', ["operands of + have illegal types `pointer to int' and `pointer to int'"]),
    ('b', '{ int *p, *q; p = q = 0; out(p * q); }', ["operands of * have illegal types `pointer to int' and `pointer to int'"]),
    ('b', '{ int *p; p = 0; out(-p); }', ["operand of unary - has illegal type `pointer to int'", "type error in argument 1 to `out'; found `pointer to int' expected `int'"]),
    ('b', '{ int *p; p = 0; out(p == 1); }', ["operands of == have illegal types `pointer to int' and `int'"]),
    ('b', '{ int *p; float f; p = 0; f = 1; p = p + f; }', ["operands of + have illegal types `pointer to int' and `float'", "operands of = have illegal types `pointer to int' and `int'"]),
    ('b', '{ int a; a = 1; a(1); }', ["found `int' expected a function"]),
    ('b', '{ int a; a = 1; a[0] = 1; }', ['type error: pointer expected']),
    ('b', '{ 1++; }', ['lvalue required']),
    ('b', '{ int a; a = 1; a++++; }', ['lvalue required']),
    ('b', '{ int a; a = 1; -a = 2; }', ['lvalue required']),
    ('b', '{ int a, b; a = b = 1; (a ? a : b) = 2; }', ['lvalue required']),
    ('b', '{ int a; a = 1; &1; }', ['lvalue required']),
    ('b', '{ int a; a = 1; (int)a = 2; }', ['lvalue required']),
    ('b', '{ int a; a = (int)(struct bs@ *)0; (struct bs@)a; }', ["cast from `int' to `incomplete struct bs@ defined at $' is illegal"]),
    ('b', '{ int *p; p = 0; (float)p; }', ["cast from `pointer to int' to `float' is illegal"]),
    ('b', '{ float f; f = 1; (int *)f; }', ["cast from `float' to `pointer to int' is illegal"]),
    ('b', '{ int a; a = 1 ? 1 : "a"; }', ["operands of ?: have illegal types `int' and `pointer to char'"]),
    ('b', '{ struct bs@ { int a; } x; x = 1 ? x : 1; }', ["operands of ?: have illegal types `struct bs@' and `int'", "operands of = have illegal types `struct bs@' and `int'"]),
    ('b', '{ int a[2], b[2]; a = b; }', ["operands of = have illegal types `array 2 of int' and `pointer to int'", 'lvalue required']),
    ('b', '{ out2(1, 2, 3); }', ["too many arguments to `out2'"]),
]

# the position is in the line or at the next token; what follows depends on the recovery
SYNTAX = [
    ('t', 'int badv@ = { 1, 2 };'),
    ('b', '{ typedef int T; T = 1; }'),
    ('t', 'static badt@ badv@;'),
    ('t', 'extern int a, b c;'),
    ('t', 'int badv@'),
    ('b', 'out(1;'),
    ('b', 'out(1));'),
    ('b', 'out(1 +);'),
    ('b', 'out(1 2);'),
    ('b', "out(')"),
    ('b', 'outs("abc);'),
    ('b', 'do out(1); while (0)'),
    ('b', 'if 1 out(1);'),
    ('b', '; else out(1);'),
    ('b', 'for (1; 2) out(1);'),
    ('b', 'while () out(1);'),
    ('b', 'switch (1) case'),
    ('b', 'goto 5;'),
    ('b', '{ int a; out(1); int b; }'),
    ('b', '{ int f(void) { return 1; } }'),
]

# valid, close to the violations
VALID = [
    ('b', '{ const int c = 1; out(c); }'),
    ('b', '{ const int *p; int a; a = 0; p = &a; out(*p); }'),
    ('b', '{ int *const p = 0; out(p == 0); }'),
    ('b', '{ void *p; int *q; p = 0; q = p; p = q; out(p == q); out(q == p); }'),
    ('b', '{ void *p; int (*f)(int); f = out; f = &out; f = *out; p = 0; (*f)(1); f(1); (**f)(1); }'),
    ('b', '{ struct bs@ { int a : 32; int : 0; int b : 1; unsigned c : 31; } x; x.a = 1; out(x.a); }'),
    ('b', '{ struct bs@ { int a; } x; { struct bs@; struct bs@ { float b; } y; y.b = 1; x.a = (int)y.b; } x.a = 2; }'),
    ('b', '{ int bs@; struct bs@ { int bs@; } x; bs@ = 1; x.bs@ = bs@; goto bs@; bs@: out(x.bs@); }'),
    ('b', '{ typedef int T; T x; { int T; T = 1; x = T; } out((T)x); }'),
    ('b', '{ typedef int T; struct { T T; } x; x.T = 1; out(x.T); }'),
    ('b', '{ char a[3] = "abc"; out(a[0]); }'),
    ('b', '{ char a[] = { "abc" }; out(sizeof a); }'),
    ('b', '{ int a[] = { 1, 2, 3, }; out(sizeof a); }'),
    ('b', '{ static int a; static int *p = &a; static int *q = &a + 1; static char *r = "x" + 1; out(*p); }'),
    ('b', '{ enum be@ { X1@, X2@ = -5, X3@ } e; int i; e = X1@; i = X3@; e = 7; out(e == i); }'),
    ('b', "switch (1) { case 1 + 1: ; case 'a': ; case sizeof (int) + 10: ; { default: ; } case (int)1.5 + 2000: ; }"),
    ('b', 'switch (1) switch (2) { case 1: break; default: ; }'),
    ('b', "switch ('a') { }"),
    ('b', '{ int i; for (;;) { i = 1; if (i) break; else continue; } do continue; while (0); }'),
    ('b', '{ int *p; int a[2]; p = a; out(p - a); out(p < a + 2); out(!p); out(p && a); out(p ? 1 : 0); p = 1 ? p : 0; p = 1 ? (void *)0 : p; }'),
    ('b', '{ struct bs@ { int a; } x, y; x.a = 1; y = x; x = 1 ? x : y; (void)x; (void)0; 1 ? (void)0 : (void)out(1); }'),
    ('b', '{ float f; f = 1; f += 2; f++; --f; out(f > 1); out((int)f % 2); out(!f); out(f ? 1 : 2); if (f) ; while (0.0f) ; }'),
    ('b', '{ extern int out(int); extern int out2(int, int); int x, *y, z[2], (*w)(int), *(*v)(void); w = out; (void)w; }'),
    ('b', '{ int a[2][3]; int (*p)[3]; p = a; p++; out(sizeof *p); out(&a[1] - a); out(*a == a[0]); }'),
    ('b', 'out(sizeof (int (*)(void)) + sizeof (struct { int a; }) + sizeof (int [3]) + sizeof "abc" + sizeof out(1) + sizeof (char));'),
    ('b', '{ volatile int v; const volatile int cv = 1; register int r; auto int a; v = cv; r = v; a = r; out(a); }'),
    ('b', '{ ; ; { } {;} }'),
    ('b', "{ unsigned u; long l; short s; signed char c; unsigned char uc; u = 1u; l = 1L; s = 1; c = '\\377'; uc = 255; out(u + l + s + c + uc + 1UL + 0x7fU + 010l); }"),
    ('b', 'out("abc"[1] + 1["abc"] + *"abc");'),
    ('b', '{ out(1), out(2); (out)(1); (*out)(1); (&out)(1); (1 ? out : out)(1); }'),
    ('b', 'lb@: ; if (0) goto lb@;'),
    ('t', 'struct bs@; struct bt@ { struct bs@ *p; struct bt@ *q; }; struct bs@ { struct bt@ b; };'),
    ('t', 'int badv@; int badv@; extern int badv@; int badv@ = 1; extern int badv@;'),
    ('t', 'static int badv@; extern int badv@; static int badv@;'),
    ('t', 'extern int bada@[]; int bada@[3]; extern int bada@[];'),
    ('t', 'int bada@[] = { 1, 2 }; int badb@[sizeof bada@ / sizeof bada@[0] == 2 ? 1 : -1];'),
    ('t', 'int badf@(); int badf@(int, int); int badf@(a, b) int a, b; { return a; }'),
    ('t', 'int badf@(int a, ...); int badf@(int a, ...) { return a; }'),
    ('t', 'static int badf@(void); static int badf@(void) { return 1; } int badg@(void) { return badf@(); }'),
    ('t', 'int badf@(int a[3], int f(int)) { return f(a[1]); } int badf@(int *a, int (*f)(int));'),
    ('t', 'typedef int badt@; badt@ badv@; typedef struct badt2@ { badt@ a; } badt2@; badt2@ badw@; struct badt2@ badx@;'),
    ('t', 'typedef int badt@(int); badt@ badf@; int badf@(int a) { return a; }'),
    ('t', 'enum be@ { BA@, BB@ = BA@ + 5, BC@ = sizeof (int) }; int bada@[BC@];'),
    ('t', 'union bs@ { int a; float b; struct { int c, d; } e; } badv@ = { 1 };'),
    ('t', 'struct bs@ { int a[2]; struct { int b; } c[2]; } badv@ = { { 1, 2 }, { { 3 }, { 4 } } }, badw@ = { 1, 2, 3, 4 };'),
    ('t', 'struct bs@ { int a; } badf@(void) { struct bs@ x; x.a = 1; return x; } int badg@(void) { return badf@().a; }'),
    ('t', 'int badv@ = 1 + 2 * sizeof (int) - ~3 + (1 ? 2 : 3) + (int)2.5 + !0 + (3 > 2 && 1);'),
    ('t', 'int bada@[2]; int *badp@ = &bada@[1]; int *badq@ = bada@ + 1; int (*badr@)[2] = &bada@; int (*bads@)(int) = out; char *badt@ = "abc"; void *badu@ = &badu@;'),
    ('t', 'int badf@(void) { return 1; } int (*badp@[2])(void) = { badf@, &badf@ };'),
    ('t', 'const int badc@ = 1; const int *const badp@ = &badc@; volatile int *badq@; const char *bads@[] = { "a", "b" };'),
    ('t', 'struct { int a; } badv@, *badw@ = &badv@;'),
    ('t', 'int (badv@), ((badw@)), *(badx@), (*(bady@))[2];'),
    ('t', 'unsigned badu@; long int badl@; int long badm@; unsigned long int badn@; short unsigned int bado@; char signed badq@;'),
    ('t', 'void badf@(void); void badg@(void) { badf@(); return; } void badf@(void) { }'),
    ('t', 'badf@(a) { return a; }'),
    ('t', 'int badf@(const int a, register int b) { return a + b; } int badf@(int, int);'),
    ('t', 'int badf@(int a) { { int a; a = 1; out(a); } return a; }'),
    ('t', 'float badg@(float); int badf@(float a, float b) { return a < b && badg@(a) >= b; }'),
    ('t', 'int badf@(char a, short b, unsigned char c) { return a + b + c; }'),
    ('t', "int badf@(int a, float b); int badf@(int x, float y) { return badf@(y, x) + badf@('a', 1); }"),
    ('t', 'int badf@(float); int badf@(a) float a; { return a; }'),
    ('t', 'int badf@(a, b) int a; float b; { return a; } int badf@(int, float);'),
    ('t', 'int bada@[];'),
    ('t', 'int bada@[][2];'),
]

# forms the compiler warns about, with the number of -A options the warning needs, and valid forms close to them
WARN = [
    ('t', 'int ef@(void) { { int a; a = 1; if (a = 0) out(1); } return 0; }', []),
    ('b', '{ int a; a = 1; if (a = 0) out(1); }', []),
    ('b', '{ int a; a = 1; while (a = 0) out(1); }', []),
    ('b', '{ int a; a = 1; out((a = 2) && a); }', []),
    ('b', '{ int a; a = 1; a == 1; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; a; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; a + 1; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; *&a; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a[2]; a[0] = 1; a[0] + 2; out(a[0]); }', [(0, 'expression with no effect elided')]),
    ('b', '{ volatile int a; a = 1; a; }', [(0, "reference to `volatile int' elided"), (0, 'expression with no effect elided')]),
    ('b', '1;', [(0, 'expression with no effect elided')]),
    ('b', '"abc";', [(0, 'expression with no effect elided')]),
    ('b', '(void)1;', []),
    ('b', '{ unsigned a; a = 1; out(-a); }', [(0, 'unsigned operand of unary -')]),
    ('b', '{ unsigned a; a = 1; out(a < 0); }', [(0, 'result of unsigned comparison is constant'), (0, 'expression with no effect elided')]),
    ('b', '{ unsigned a; a = 1; out(0 <= a); }', [(0, 'result of unsigned comparison is constant'), (0, 'expression with no effect elided')]),
    ('b', '{ unsigned a; a = 1; out(a > 0); }', []),
    ('b', '{ int a; a = 1; out(a << 32); }', [(0, "shifting an `int' by 32 bits is undefined")]),
    ('b', '{ int a; a = 1; out(a >> 33); }', [(0, "shifting an `int' by 33 bits is undefined")]),
    ('b', '{ int a; a = 1; out(a << -1); }', [(0, "shifting an `int' by -1 bits is undefined")]),
    ('b', '{ unsigned a; a = 1; out(a << 32); }', [(0, "shifting an `unsigned int' by 32 bits is undefined")]),
    ('b', '{ unsigned a; a = 1; out(a >> 100); }', [(0, "shifting an `unsigned int' by 100 bits is undefined")]),
    ('b', '{ static int a = 2147483647 + 1; out(a); }', [(0, 'overflow in constant expression')]),
    ('b', '{ static int a = 65536 * 65536; out(a); }', [(0, 'overflow in constant expression')]),
    ('b', '{ static int a = -(-2147483647 - 1); out(a); }', [(0, 'overflow in constant expression')]),
    ('b', '{ static char a = 300; out(a); }', [(0, "overflow in converting constant expression from `int' to `char'")]),
    ('b', '{ static short a = 70000; out(a); }', [(0, "overflow in converting constant expression from `int' to `short'")]),
    ('b', '{ static char a = 200; out(a); }', [(0, "overflow in converting constant expression from `int' to `char'")]),
    ('b', '{ static unsigned char a = 256; out(a); }', [(0, "overflow in converting constant expression from `unsigned int' to `unsigned char'")]),
    ('b', '{ static unsigned short a = 65536; out(a); }', [(0, "overflow in converting constant expression from `unsigned int' to `unsigned short'")]),
    ('b', '{ static float a = 3e38f * 10.0f; outf(a); }', [(0, 'overflow in constant expression')]),
    ('b', '{ static float a = 3e38f + 3e38f; outf(a); }', [(0, 'overflow in constant expression')]),
    ('b', '{ static float a = 3e38f / 1e-10f; outf(a); }', [(0, 'overflow in constant expression')]),
    ('b', 'out(4294967296);', [(0, "overflow in constant `4294967296'"), (0, "overflow in converting constant expression from `unsigned long' to `int'")]),
    ('b', 'out(99999999999);', [(0, "overflow in constant `99999999999'"), (0, "overflow in converting constant expression from `unsigned long' to `int'")]),
    ('b', 'out(0x1ffffffff);', [(0, "overflow in constant `0x1ffffffff'"), (0, "overflow in converting constant expression from `unsigned long' to `int'")]),
    ('b', 'out(040000000000);', [(0, "overflow in constant `040000000000'"), (0, "overflow in converting constant expression from `unsigned long' to `int'")]),
    ('b', 'outf(1e50f);', [(0, "overflow in floating constant `1e50f'")]),
    ('b', "out('ab');", [(0, 'excess characters in multibyte character literal ignored')]),
    ('b', "out('\\400');", [(0, "overflow in escape sequence with resulting value `256'")]),
    ('b', "out('\\x100');", [(0, "overflow in escape sequence with resulting value `256'")]),
    ('b', "out('\\q');", [(0, "unrecognized character escape sequence `\\q'")]),
    ('b', "out('\\8');", [(0, "unrecognized character escape sequence `\\8'")]),
    ('b', 'out("\\q"[0]);', [(0, "unrecognized character escape sequence `\\q'")]),
    ('b', 'out("\\777"[0]);', [(0, "overflow in escape sequence with resulting value `511'")]),
    ('b', 'out("\\xfff"[0]);', [(0, "overflow in escape sequence with resulting value `4095'")]),
    ('b', '{ static struct { int a : 3; } x = { 9 }; out(x.a); }', [(0, 'initializer exceeds bit-field width')]),
    ('b', '{ static struct { unsigned a : 3; } x = { 8 }; out(x.a); }', [(0, 'initializer exceeds bit-field width')]),
    ('b', '{ static struct { unsigned a : 3; } x = { 7 }; out(x.a); }', []),
    ('b', '{ static struct { int a : 3; } x = { -4 }; out(x.a); }', []),
    ('b', '{ static struct { int a : 3; } x = { -5 }; out(x.a); }', [(0, 'initializer exceeds bit-field width')]),
    ('b', '{ struct ws@ { int a; int b : 0; int c; } x; x.a = 1; out(x.a); }', [(0, "extraneous 0-width bit field `int b' ignored")]),
    ('b', '{ struct ws@ { int a; int : 0; int c; } x; x.a = 1; out(x.a); }', []),
    ('b', '{ switch (1) { } }', [(0, 'switch statement with no cases')]),
    ('b', '{ switch (1) { default: ; } }', []),
    ('b', '{ switch (1) { default: out(1); } }', []),
    ('b', '{ switch (1) { out(1); } }', [(0, 'unreachable code'), (0, 'switch statement with no cases')]),
    ('b', '{ switch (1) { case 1: out(1); break; out(2); } }', [(0, 'unreachable code')]),
    ('b', 'goto wl@; wl@: ;', []),
    ('b', '{ goto wl@; out(1); wl@: ; }', [(0, 'unreachable code')]),
    ('b', '{ if (0) goto wl@; wl@: ; }', []),
    ('b', 'wl@: ;', []),
    ('b', 'for (;;) { break; out(1); }', [(0, 'unreachable code')]),
    ('b', 'while (0) out(1);', []),
    ('b', 'for (; 0; ) out(1);', []),
    ('b', 'do out(1); while (0);', []),
    ('b', 'if (0) out(1);', []),
    ('b', 'if (1) out(1); else out(2);', []),
    ('t', 'int ef@(void) { return; }', [(0, 'missing return value')]),
    ('t', 'int ef@(void) { out(1); }', [(0, 'missing return value')]),
    ('t', 'int ef@(void) { if (out == 0) return 1; }', [(0, 'missing return value')]),
    ('t', 'int ef@(void) { while (1) out(1); }', [(0, 'missing return value')]),
    ('t', 'int ef@(void) { for (;;) ; }', [(0, 'source code specifies an infinite loop')]),
    ('t', 'int ef@(void) { wl@: goto wl@; }', [(0, 'source code specifies an infinite loop')]),
    ('t', 'int ef@(void) { do out(1); while (1); }', [(0, 'missing return value')]),
    ('t', 'int ef@(void) { { return 1; out(1); } }', [(0, 'unreachable code'), (0, 'missing return value')]),
    ('t', 'int ef@(void) { { int a; a = 1; if (a) return 1; else return 2; } }', []),
    ('t', 'int * ef@(void) { { int a; return &a; } }', [(0, "pointer to local `a' is an illegal return value")]),
    ('t', 'int * ef@(void) { { int a[2]; return a; } }', [(0, "pointer to local `a' is an illegal return value")]),
    ('t', 'int * ef@(void) { { static int a; return &a; } }', []),
    ('t', 'int * ef@(void) { { int a; int *p; p = &a; return p; } }', []),
    ('t', 'int ef@(void) { { int a; } return 0; }', [(2, "local `int a' is not referenced")]),
    ('b', '{ int a; }', [(2, "local `int a' is not referenced")]),
    ('b', '{ int a; a = 1; }', []),
    ('b', '{ static int a; }', [(2, "static `int a' is not referenced")]),
    ('b', '{ static int a = 1; a = 2; }', []),
    ('b', '{ int a[3]; }', [(2, "local `array 3 of int a' is not referenced")]),
    ('b', '{ extern int out(int); }', []),
    ('b', '{ struct ws@ { int a; } x; }', [(2, "local `struct ws@ x' is not referenced")]),
    ('t', 'static int ws@;', [(2, "static `int ws@' is not referenced")]),
    ('t', 'static int ws@ = 1;', [(2, "static `int ws@' is not referenced")]),
    ('t', 'static int ws@(void) { return 1; }', [(2, "static `int function(void) ws@' is not referenced")]),
    ('t', 'static void ws@(void);', []),
    ('t', 'int wf@(int a) { return 1; }', [(2, "parameter `int a' is not referenced")]),
    ('t', 'int wf@(int a, int b) { return a; }', [(2, "parameter `int b' is not referenced")]),
    ('t', 'int wf@(a) int a; { return a; }', [(1, "old-style function definition for `wf@'"), (1, "missing prototype for `wf@'")]),
    ('t', 'int wf@(a) { return a; }', [(1, "old-style function definition for `wf@'"), (1, "missing prototype for `wf@'")]),
    ('t', 'int wf@() { return 1; }', [(1, "old-style function definition for `wf@'"), (1, "missing prototype for `wf@'")]),
    ('t', 'wf@(void) { return 1; }', []),
    ('t', 'wv@;', []),
    ('t', 'int wf@();', [(1, 'missing prototype')]),
    ('t', 'int (*wf@)();', [(1, 'missing prototype')]),
    ('t', 'int wf@(int ());', [(1, 'missing prototype')]),
    ('t', 'int wf@(struct wu@ *p);', []),
    ('t', 'int wf@(int), wg@(int a);', []),
    ('t', 'int wf@(struct wu@ { int a; } *p);', []),
    ('t', 'int wf@(enum we@ { WA@ } p);', []),
    ('t', 'int wv@, wv@;', []),
    ('t', 'extern int wv@; static int wv@;', [(0, "inconsistent linkage for `wv@' previously declared at $"), (2, "static `int wv@' is not referenced")]),
    ('t', 'static int wv@; int wv@; int wg@(void) { return wv@; }', [(0, "inconsistent linkage for `wv@' previously declared at $")]),
    ('t', 'static int wv@; extern int wv@; int wg@(void) { return wv@; }', []),
    ('t', 'int wf@(void) { extern int wv@; return wv@; } float wv@;', [(0, "declaration of `wv@' does not match previous declaration at $")]),
    ('t', 'int wf@(void) { extern int wv@; return wv@; } int wv@;', []),
    ('t', 'int wf@(void) { extern int wv@; return wv@; } int wg@(void) { extern float wv@; return (int)wv@; }', [(0, "declaration of `wv@' does not match previous declaration at $")]),
    ('t', 'int wf@(void) { extern int wg@(int); return wg@(1); } float wg@(int a) { return a; }', [(0, "declaration of `wg@' does not match previous declaration at $")]),
    ('t', 'int wf@(void) { return wg@(1); } int wg@(int a) { return a; }', [(1, 'missing prototype')]),
    ('t', 'int wf@(void) { return wg@(1); } float wg@(int a) { return a; }', [(0, "declaration of `wg@' does not match previous declaration at $"), (1, 'missing prototype')]),
    ('t', 'int wf@(void) { return wg@(1); } static int wg@(int a) { return a; }', [(0, "declaration of `wg@' does not match previous declaration at $"), (1, 'missing prototype')]),
    ('t', 'int wf@(void) { return wg@(1); } int wh@(void) { return wg@(2); }', [(1, 'missing prototype'), (1, 'missing prototype')]),
    ('t', 'int wf@(a) char a; { return a; } int wg@(void) { return wf@(1); }', [(1, "old-style function definition for `wf@'"), (1, "missing prototype for `wf@'")]),
    ('t', 'int wf@(int); int wf@(a) int a; { return a; }', [(1, "old-style function definition for `wf@'")]),
    ('t', 'enum we@ { WA@, WB@, };', [(2, 'non-ANSI trailing comma in enumerator list')]),
    ('t', 'enum we@ { WA@, WB@ } we2@ = 5;', []),
    ('t', 'enum we@ { WA@, WB@ } we2@; int *wp@ = &we2@;', [(1, "assignment between `pointer to int' and `pointer to enum we@' is compiler-dependent")]),
    ('t', 'enum we@ { WA@, WB@ } *wp@; int wq@; int wg@(void) { wp@ = &wq@; return 1; }', [(1, "assignment between `pointer to enum we@' and `pointer to int' is compiler-dependent")]),
    ('t', 'long long wv@;', [(1, "`long long int' is a non-ANSI type")]),
    ('t', 'long double wv@; double ww@;', []),
    ('t', 'int wa@[2], *wp@ = &wa@[3];', []),
    ('t', 'int wf@(void) { register struct { int a; } x; x.a = 1; return x.a; }', [(0, "register declaration ignored for `struct defined at $ x'")]),
    ('t', 'int wf@(void) { register float x; x = 1; return x; }', []),
    ('t', 'int wf@(void) { register volatile int x; x = 1; return x; }', [(0, "register declaration ignored for `volatile int x'")]),
    ('t', 'int wf@(register float x) { return x; }', []),
    ('t', 'typedef int wt@(void); const wt@ wf@;', [(0, 'qualified function type ignored')]),
    ('t', 'const int wf@(void);', []),
    ('t', 'typedef int wt@[3]; const wt@ wa@ = { 1, 2, 3 };', []),
    ('t', 'int wa@[70000];', [(2, "more than 32767 bytes in `array 70000 of int'")]),
    ('t', 'char wa@[32767], wb@[32768];', [(2, "more than 32767 bytes in `array 32768 of char'")]),
    ('t', 'struct ws@ { char a[40000]; } wv@;', [(2, "more than 32767 bytes in `array 40000 of char'"), (2, "more than 32767 bytes in `struct ws@'")]),
    ('t', ';', [(0, 'empty declaration')]),
    ('t', 'int wf@(void) { return 1; };', [(0, 'empty declaration')]),
    ('t', 'int wf@(int a, ...) { return a; }', []),
    ('t', 'char *ws@ = "a" "\\q";', [(0, "unrecognized character escape sequence `\\q'")]),
    ('b', '{ int a; int *p; a = 0; p = (int *)a; out(p == 0); }', []),
    ('b', '{ int a; int *p; p = &a; a = (int)p; out(a != 0); }', []),
    ('b', '{ int a; char c, *p; p = &c; a = (int)p; out(a != 0); }', []),
    ('b', '{ int a; char *p; p = (char *)&a; out(p != 0); }', []),
    ('b', '{ char c; int *p; p = (int *)&c; out(p != 0); }', []),
    ('b', '{ int (*p)(void); p = (int (*)(void))out; out(p != 0); }', []),
    ('b', '{ int *p; p = (int *)out; out(p != 0); }', [(0, "conversion from `pointer to int function(int)' to `pointer to int' is compiler dependent")]),
    ('b', '{ void *p; p = (void *)out; out(p != 0); }', [(0, "conversion from `pointer to int function(int)' to `pointer to void' is compiler dependent")]),
    ('b', '{ int (*p)(void); int a; p = (int (*)(void))&a; out(p != 0); }', [(0, "conversion from `pointer to int' to `pointer to int function(void)' is compiler dependent")]),
    ('b', '{ short s; s = (short)out; }', [(0, "conversion from `pointer to int function(int)' to `short' is undefined"), (1, "conversion from `pointer to int function(int)' to `short' is compiler dependent")]),
    ('b', '{ struct { int a; } x; char *p; p = (char *)&x; out(p != 0); }', []),
    ('b', '{ float f; int a; f = 1; a = f; out(a); }', []),
    ('b', '{ char c; int a; a = 1; c = a; out(c); }', []),
    ('b', 'wi@(1);', [(1, 'missing prototype')]),
    ('b', '{ int a; a = wi@(1, 2.5f, "x"); out(a); }', [(1, 'missing prototype')]),
    ('b', '{ int (*p)(); p = out; out(p(1)); }', [(1, 'missing prototype')]),
    ('b', '{ int (*p)(int); p = out; out(p(1)); }', []),
    ('b', '{ const int a; out(a); }', []),
    ('b', '{ struct ws@ { int a; } *p; struct ws@ wf@(); p = 0; out(p != 0); }', [(1, 'missing prototype')]),
    ('b', '{ int a; a = 1; a, a = 2; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; a ? 1 : 2; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; a || a; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; !a; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; (char)a; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a; a = 1; a++; ++a; a--; a += 1; }', []),
    ('b', '{ int a, *p; p = &a; *p++; *p = 1; }', [(0, 'expression with no effect elided')]),
    ('b', '{ int a, *p; p = &a; *p; }', [(0, 'expression with no effect elided')]),
    ('b', '{ struct ws@ { int a; } x; x.a = 1; x; x.a; }', [(0, 'expression with no effect elided'), (0, 'expression with no effect elided')]),
    ('b', 'out;', [(0, 'expression with no effect elided')]),
    ('b', 'out(1 ? 1 : 2);', []),
    ('b', '{ int a[1]; a[0] = 1; out(a[-1]); out(a[5]); }', []),
    ('b', '{ char c; c = 1; out(c == 300); }', []),
    ('b', '{ unsigned char c; c = 1; out(c < 0); }', []),
    ('b', '{ unsigned a; int b; a = b = 1; out(a < b); }', []),
    ('b', '{ int a; a = 1; if (a == 1); out(1); }', []),
    ('b', '{ int a = 1, b = 2; { int a; a = b; out(a); } out(a); }', []),
    ('b', '{ int out; out = 1; }', []),
    ('b', '{ int a; out(a); }', []),
    ('b', '{ int a = a; out(a); }', []),
    ('b', 'out(1 << 31);', []),
    ('b', 'out(1 << 32);', [(0, "shifting an `int' by 32 bits is undefined")]),
    ('b', 'out(0x7fffffff + 1);', []),
    ('b', 'out(1 / 0);', []),
    ('b', 'out(1 % 0);', []),
    ('b', 'out(5u / 0);', []),
    ('b', 'outf(1.0f / 0);', []),
    ('b', '{ switch (1) { case 1: case 1000000: case 2000000000: out(1); } }', []),
    ('b', '{ { { { { { { { { { { { { { { { { out(1); } } } } } } } } } } } } } } } } }', [(2, 'more than 15 levels of nested statements')]),
    ('b', '{ int a; a = 1; switch (a) { case 1: out(1); case 2: out(2); } }', []),
    ('b', "out(L'ab');", [(0, 'excess characters in wide-character literal ignored')]),
]
