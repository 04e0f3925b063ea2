// Storage for std::cout and std::cerr. Natively the standard library constructs its streams
// here; in the symbolic build only the fields that inlined manipulators touch are used
// (virtual base offset, formatting fields, the character facet's identity widening table).
extern "C" {
struct IosCtype { char head[56]; char ok; char widen[256]; char rest[400]; constexpr IosCtype() : head(), ok(1), widen(), rest() { for (int i = 0; i < 256; i++) widen[i] = (char) i; } };
struct IosObj { void* vptr; char a[56]; char base[240]; const void* ctype; char b[712]; };
static IosCtype iosobj_ctype;
static long iosobj_vt[8] = { 64 };
__attribute__((aligned(16))) IosObj _ZSt4cout = { &iosobj_vt[3], {}, {}, &iosobj_ctype, {} };
__attribute__((aligned(16))) IosObj _ZSt4cerr = { &iosobj_vt[3], {}, {}, &iosobj_ctype, {} };
}
