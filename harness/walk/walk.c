/* A tool for Valgrind. Between two marks, sums up the course that the execution
   takes: the address of every instruction, and the place and size of every
   access to memory. A store to MARKS begins, one to MARKS + 8 ends; the number of
   instructions is then at MARKS + 16, that of accesses at MARKS + 24, and the sum
   at MARKS + 32. */
#include "pub_tool_basics.h"
#include "pub_tool_libcassert.h"
#include "pub_tool_libcprint.h"
#include "pub_tool_machine.h"
#include "pub_tool_tooliface.h"

#define MARKS ((Addr)0x60000000)

static Bool on;
static ULong sum, instructions, accesses;

static inline void mix(ULong x) {
  sum = (sum ^ x) * 0x9E3779B97F4A7C15ULL;
  sum ^= sum >> 29;
}

static VG_REGPARM(1) void step(Addr pc) {
  if (on) {
    instructions++;
    mix(pc);
  }
}

static VG_REGPARM(2) void load(Addr a, SizeT size) {
  if (on) {
    accesses++;
    mix(a * 64 + size);
  }
}

static VG_REGPARM(2) void store(Addr a, SizeT size) {
  if (a == MARKS) {
    on = True;
    sum = instructions = accesses = 0;
    return;
  }
  if (a == MARKS + 8 && on) {
    on = False;
    ((ULong *)MARKS)[2] = instructions;
    ((ULong *)MARKS)[3] = accesses;
    ((ULong *)MARKS)[4] = sum;
    return;
  }
  if (on) {
    accesses++;
    mix(~(a * 64 + size));
  }
}

static void call(IRSB *out, const HChar *name, void *fn, IRExpr *a, Int size, IRExpr *guard) {
  IRExpr **args = size < 0 ? mkIRExprVec_1(a) : mkIRExprVec_2(a, mkIRExpr_HWord((HWord)size));
  IRDirty *d = unsafeIRDirty_0_N(size < 0 ? 1 : 2, name, VG_(fnptr_to_fnentry)(fn), args);
  if (guard) {
    d->guard = guard;
  }
  addStmtToIRSB(out, IRStmt_Dirty(d));
}

static Int loaded(IRLoadGOp op) {
  IRType wide = Ity_INVALID, narrow = Ity_INVALID;
  typeOfIRLoadGOp(op, &wide, &narrow);
  return sizeofIRType(narrow);
}

static IRSB *instrument(VgCallbackClosure *closure, IRSB *in, const VexGuestLayout *layout, const VexGuestExtents *vge,
                        const VexArchInfo *info, IRType gword, IRType hword) {
  IRSB *out = deepCopyIRSBExceptStmts(in);
  for (Int i = 0; i < in->stmts_used; i++) {
    IRStmt *st = in->stmts[i];
    if (!st || st->tag == Ist_NoOp) {
      continue;
    }
    switch (st->tag) {
    case Ist_IMark:
      addStmtToIRSB(out, st);
      call(out, "step", &step, mkIRExpr_HWord((HWord)st->Ist.IMark.addr), -1, NULL);
      continue;
    case Ist_WrTmp:
      if (st->Ist.WrTmp.data->tag == Iex_Load) {
        call(out, "load", &load, st->Ist.WrTmp.data->Iex.Load.addr, sizeofIRType(st->Ist.WrTmp.data->Iex.Load.ty), NULL);
      }
      break;
    case Ist_Store:
      /* (Afterwards, so that what is stored at a mark does not end up on what the tool puts there.) */
      addStmtToIRSB(out, st);
      call(out, "store", &store, st->Ist.Store.addr, sizeofIRType(typeOfIRExpr(in->tyenv, st->Ist.Store.data)), NULL);
      continue;
    case Ist_StoreG:
      call(out, "store", &store, st->Ist.StoreG.details->addr,
           sizeofIRType(typeOfIRExpr(in->tyenv, st->Ist.StoreG.details->data)), st->Ist.StoreG.details->guard);
      break;
    case Ist_LoadG:
      call(out, "load", &load, st->Ist.LoadG.details->addr, loaded(st->Ist.LoadG.details->cvt), st->Ist.LoadG.details->guard);
      break;
    case Ist_Dirty:
      if (st->Ist.Dirty.details->mFx != Ifx_None) {
        call(out, "load", &load, st->Ist.Dirty.details->mAddr, st->Ist.Dirty.details->mSize, NULL);
      }
      break;
    case Ist_CAS:
      call(out, "load", &load, st->Ist.CAS.details->addr, sizeofIRType(typeOfIRExpr(in->tyenv, st->Ist.CAS.details->dataLo)), NULL);
      break;
    default:
      break;
    }
    addStmtToIRSB(out, st);
  }
  return out;
}

static void post_init(void) {}
static void fini(Int code) {}

static void pre_init(void) {
  VG_(details_name)("walk");
  VG_(details_version)(NULL);
  VG_(details_description)("the course of an execution");
  VG_(details_copyright_author)("");
  VG_(details_bug_reports_to)("");
  VG_(basic_tool_funcs)(post_init, instrument, fini);
}

VG_DETERMINE_INTERFACE_VERSION(pre_init)
