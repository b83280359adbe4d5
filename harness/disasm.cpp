// C11: the instruction disassembler used by the instruction trace.
#include "pbt.hpp"
using namespace pbt;
extern "C" {
#include "device.h"
#include "logger.h"
uint64_t step_count;
}
// The instruction set as the Principles of Operation lists it.
enum F { RR, R1, R2I, RX, RSR, RSS, SI, S0, SSL, SSLL };
struct Op { uint8_t op; const char *name; F f; };
static const Op ops[] = {
  {0x04,"SPM",R1},{0x05,"BALR",RR},{0x06,"BCTR",RR},{0x07,"BCR",RR},{0x08,"SSK",RR},{0x09,"ISK",RR},{0x0a,"SVC",R2I},
  {0x10,"LPR",RR},{0x11,"LNR",RR},{0x12,"LTR",RR},{0x13,"LCR",RR},{0x14,"NR",RR},{0x15,"CLR",RR},{0x16,"OR",RR},{0x17,"XR",RR},{0x18,"LR",RR},{0x19,"CR",RR},{0x1a,"AR",RR},{0x1b,"SR",RR},{0x1c,"MR",RR},{0x1d,"DR",RR},{0x1e,"ALR",RR},{0x1f,"SLR",RR},
  {0x20,"LPDR",RR},{0x21,"LNDR",RR},{0x22,"LTDR",RR},{0x23,"LCDR",RR},{0x24,"HDR",RR},{0x25,"LRDR",RR},{0x26,"MXR",RR},{0x27,"MXDR",RR},{0x28,"LDR",RR},{0x29,"CDR",RR},{0x2a,"ADR",RR},{0x2b,"SDR",RR},{0x2c,"MDR",RR},{0x2d,"DDR",RR},{0x2e,"AWR",RR},{0x2f,"SWR",RR},
  {0x30,"LPER",RR},{0x31,"LNER",RR},{0x32,"LTER",RR},{0x33,"LCER",RR},{0x34,"HER",RR},{0x35,"LRER",RR},{0x36,"AXR",RR},{0x37,"SXR",RR},{0x38,"LER",RR},{0x39,"CER",RR},{0x3a,"AER",RR},{0x3b,"SER",RR},{0x3c,"MER",RR},{0x3d,"DER",RR},{0x3e,"AUR",RR},{0x3f,"SUR",RR},
  {0x40,"STH",RX},{0x41,"LA",RX},{0x42,"STC",RX},{0x43,"IC",RX},{0x44,"EX",RX},{0x45,"BAL",RX},{0x46,"BCT",RX},{0x47,"BC",RX},{0x48,"LH",RX},{0x49,"CH",RX},{0x4a,"AH",RX},{0x4b,"SH",RX},{0x4c,"MH",RX},{0x4e,"CVD",RX},{0x4f,"CVB",RX},
  {0x50,"ST",RX},{0x54,"N",RX},{0x55,"CL",RX},{0x56,"O",RX},{0x57,"X",RX},{0x58,"L",RX},{0x59,"C",RX},{0x5a,"A",RX},{0x5b,"S",RX},{0x5c,"M",RX},{0x5d,"D",RX},{0x5e,"AL",RX},{0x5f,"SL",RX},
  {0x60,"STD",RX},{0x67,"MXD",RX},{0x68,"LD",RX},{0x69,"CD",RX},{0x6a,"AD",RX},{0x6b,"SD",RX},{0x6c,"MD",RX},{0x6d,"DD",RX},{0x6e,"AW",RX},{0x6f,"SW",RX},
  {0x70,"STE",RX},{0x78,"LE",RX},{0x79,"CE",RX},{0x7a,"AE",RX},{0x7b,"SE",RX},{0x7c,"ME",RX},{0x7d,"DE",RX},{0x7e,"AU",RX},{0x7f,"SU",RX},
  {0x80,"SSM",S0},{0x82,"LPSW",S0},{0x83,"DIAG",SI},{0x86,"BXH",RSR},{0x87,"BXLE",RSR},{0x88,"SRL",RSS},{0x89,"SLL",RSS},{0x8a,"SRA",RSS},{0x8b,"SLA",RSS},{0x8c,"SRDL",RSS},{0x8d,"SLDL",RSS},{0x8e,"SRDA",RSS},{0x8f,"SLDA",RSS},
  {0x90,"STM",RSR},{0x91,"TM",SI},{0x92,"MVI",SI},{0x93,"TS",S0},{0x94,"NI",SI},{0x95,"CLI",SI},{0x96,"OI",SI},{0x97,"XI",SI},{0x98,"LM",RSR},{0x9c,"SIO",S0},{0x9d,"TIO",S0},{0x9e,"HIO",S0},{0x9f,"TCH",S0},
  {0xd1,"MVN",SSL},{0xd2,"MVC",SSL},{0xd3,"MVZ",SSL},{0xd4,"NC",SSL},{0xd5,"CLC",SSL},{0xd6,"OC",SSL},{0xd7,"XC",SSL},{0xdc,"TR",SSL},{0xdd,"TRT",SSL},{0xde,"ED",SSL},{0xdf,"EDMK",SSL},
  {0xf1,"MVO",SSLL},{0xf2,"PACK",SSLL},{0xf3,"UNPK",SSLL},{0xf8,"ZAP",SSLL},{0xf9,"CP",SSLL},{0xfa,"AP",SSLL},{0xfb,"SP",SSLL},{0xfc,"MP",SSLL},{0xfd,"DP",SSLL} };
// optional features and later machines: named or shown as undefined, either is right
static bool optional_op(int op) { return op == 0x84 || op == 0x85 || op == 0x0d || op == 0x0e || op == 0x0f || op == 0x4d || op == 0x51 || (op >= 0xa0 && op < 0xc0) || op == 0xe8 || op == 0xf0 || op == 0xb2; }
static std::string norm(const std::string &s) { std::string o; for (char ch : s) if (ch != ' ' && ch != '\n') o += ch; return o; }
static std::string dis(const uint8_t *p, int len) {
  char *mem = nullptr; size_t sz = 0; log_file = open_memstream(&mem, &sz); log_level = LOG_ITRACE; log_enable = 1;
  uint8_t *x = (uint8_t *)malloc(len); memcpy(x, p, len); print_inst(x); free(x); fflush(log_file); fclose(log_file); log_file = nullptr; log_enable = 0;
  std::string s(mem ? mem : "", sz); free(mem); size_t k = s.find(" itrace "); return s; }
static void run(Case &c) {
  uint64_t h = 1; int odd = 0;
  for (int i = 0; i < 60; i++) { c.begin();
    uint8_t b[6]; for (auto &x : b) x = c.chance(1, 4) ? c.pick(std::vector<int>{ 0, 0xff, 0xf0, 0x0f, 0x10, 0x80 }) : c.u8();
    if (c.chance(3, 4)) b[0] = ops[c.draw(sizeof ops / sizeof *ops)].op;
    int len = b[0] < 0x40 ? 2 : b[0] < 0xc0 ? 4 : 6;
    std::string got = dis(b, len);
    // drop the line prefix (source file and line)
    const Op *o = nullptr; for (auto &q : ops) if (q.op == b[0]) o = &q;
    int r1 = b[1] >> 4, r2 = b[1] & 15, B = len > 2 ? b[2] >> 4 : 0, D = len > 2 ? (b[2] & 15) << 8 | b[3] : 0, B2 = len > 4 ? b[4] >> 4 : 0, D2 = len > 4 ? (b[4] & 15) << 8 | b[5] : 0;
    std::string w; bool gap = true;
    if (!o) { w = fmt("?%02x?", b[0]); gap = false; if (optional_op(b[0])) w = ""; }
    else switch (o->f) {
      case RR: w = fmt("%s %d,%d", o->name, r1, r2); break; case R1: w = fmt("%s %d", o->name, r1); break; case R2I: w = fmt("%s %02x", o->name, b[1]); break;
      case RX: w = fmt("%s %d,%03x(%d,%d)", o->name, r1, D, r2, B); break;
      case RSR: w = fmt("%s %d,%d,%03x", o->name, r1, r2, D) + (B ? fmt("(%d)", B) : ""); break;
      case RSS: w = fmt("%s %d,%03x", o->name, r1, D) + (B ? fmt("(%d)", B) : ""); break;
      case S0: w = fmt("%s %03x", o->name, D) + (B ? fmt("(%d)", B) : ""); break;
      case SI: w = fmt("%s %03x", o->name, D) + (B ? fmt("(%d)", B) : "") + fmt(",%02x", b[1]); break;
      case SSL: w = fmt("%s %03x(%d", o->name, D, b[1]) + (B ? fmt(",%d", B) : "") + fmt("),%03x(%d)", D2, B2); break;
      case SSLL: w = fmt("%s %03x(%d", o->name, D, r1) + (B ? fmt(",%d", B) : "") + fmt("),%03x(%d,%d)", D2, r2, B2); break; }
    std::string ins = hex(b, len); c.note("%s -> %s", ins.c_str(), got.c_str());
    // the mnemonic stands alone: preceded by a blank, followed by a blank
    size_t at = std::string::npos; if (o) { at = got.find(fmt(" %s ", o->name)); if (at == std::string::npos) c.fail("mnemonic", "%s (%s) printed as [%s], expected [%s]", ins.c_str(), o->name, got.c_str(), w.c_str()); }
    else if (w.size()) { at = got.find(w); if (at == std::string::npos) c.fail("undefined", "undefined operation code %02x printed as [%s]", b[0], got.c_str()); }
    if (w.size()) { std::string g = norm(got.substr(at)), e = norm(w); if (g != e) c.fail("operands", "%s printed as [%s], expected [%s]", ins.c_str(), got.c_str(), w.c_str()); }
    else odd++;
    h = mix(h, hbytes(b, len)); c.end(); }
  c.nontrivial(h);
}
pbt::Harness HARNESS = { "C11", nullptr, run, 200 };
