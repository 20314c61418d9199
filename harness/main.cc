// vh COMMANDS TRACE: executes NDJSON commands on the real library and records
// one NDJSON event per command (the command's fields plus what was observed).
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <memory>

#include "jv.h"

std::map<std::string, ComponentFactory>& Registry() {
  static std::map<std::string, ComponentFactory> r;
  return r;
}

int main(int argc, char** argv) {
  if (argc < 3) return 64;
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  if (!in || !out) return 64;
  std::string text;
  std::unique_ptr<Component> comp;
  std::string comp_name;
  while (std::getline(in, text)) {
    if (text.empty()) continue;
    JV cmd = JParser(text).val();
    JW w;
    for (auto& kv : cmd.o) w.raw(kv.first, Dump(kv.second));
    // a hang in one command ends the process; the runner sees where
    alarm(60);
    if (cmd["op"].s == "reset") {
      const std::string name = cmd["comp"].s;
      if (!Registry().count(name)) { fprintf(stderr, "no component %s\n", name.c_str()); return 64; }
      // always a fresh component: nothing survives from the previous history
      comp.reset();
      comp.reset(Registry()[name]());
      comp->Reset(cmd);
    } else {
      try {
        comp->Do(cmd, w);
      } catch (const std::exception& e) {
        if (!strncmp(e.what(), "harness:", 8)) { fprintf(stderr, "%s in %s\n", e.what(), text.c_str()); return 64; }
        w.st("exc", e.what());
      }
    }
    w.s += "}\n";
    fputs(w.s.c_str(), out);
    fflush(out);
  }
  comp.reset();
  fclose(out);
  return 0;
}
