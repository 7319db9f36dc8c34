// common declarations for the analysed witness translation units.
// Nothing in here is ever executed: the files are compiled to LLVM IR and the
// analyses in /verif/engine read that IR.
#ifndef VP_H
#define VP_H
extern "C" void vp_reject() __attribute__((noreturn));       // precondition violated
static inline __attribute__((always_inline)) void vp_assume( const bool c ){ if( !c ) vp_reject(); }
#define VP_ANCHOR(x,s)
#endif
