// Decoding of LLVM IR into flat scalar instructions.
#pragma once
#include "term.h"
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>

struct Value { u64 v; T t; };   // t==nullptr: concrete (width<=64, masked)

enum Op : uint16_t {
  I_NOP, I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
  I_EQ, I_NE, I_ULT, I_ULE, I_UGT, I_UGE, I_SLT, I_SLE, I_SGT, I_SGE,
  I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET,
  I_CALL, I_SELECT, I_UNREACHABLE, I_LPAD, I_RESUME, I_FP, I_FCMP, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_FPEXT, I_FPTRUNC, I_FNEG,
  I_RMW, I_CMPXCHG, I_UNSUPPORTED
};

struct Edge { int block; std::vector<std::pair<int, int>> copies; };
struct FuncInfo;
struct CallInfo {
  FuncInfo *callee = nullptr; int calleeReg = 0; bool indirect = false;
  std::vector<int> args; std::vector<u64> byval; // byval size per arg (0 none)
  int dst = -1; unsigned nret = 0; std::vector<unsigned> retw;
  bool invoke = false; int normalEdge = -1, unwindEdge = -1;
  std::vector<unsigned> argw;
};
struct LPad { bool cleanup; std::vector<std::pair<bool, u64>> clauses; }; // (isFilter, typeinfo addr)
struct SwitchInfo { std::vector<u64> vals; std::vector<int> edges; int deflt; };
struct GepInfo { std::vector<std::tuple<int, u64, unsigned>> idx; }; // operand, scale, width

struct DInst {
  uint16_t op; uint16_t w; int dst, a, b, c; u64 imm; void *x; unsigned w2;
};
struct Block { int start; int ipdom; };
struct FuncInfo {
  std::string name; void *llvmF = nullptr; bool decoded = false; bool isDecl = false; int builtin = -1;
  std::vector<DInst> code; std::vector<Block> blocks; std::vector<int> blockOf; std::vector<Edge> edges;
  std::vector<Value> consts; std::vector<uint16_t> regw; int nregs = 0, nargs = 0; u64 addr = 0;
  u64 executed = 0;
};
