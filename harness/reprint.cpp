// reprint: parse a model and print it again.
//   reprint STDLIBDIR < list of lines "WIDTH INPUT OUTPUT"   (width 0: plain printer)
// A line "ok" or "error MESSAGE" per file on the standard output.
#include <minizinc/astexception.hh>
#include <minizinc/model.hh>
#include <minizinc/parser.hh>
#include <minizinc/prettyprinter.hh>

#include <fstream>
#include <iostream>
#include <sstream>
#include <string>

using namespace MiniZinc;

int main(int argc, char** argv) {
  std::string lib = argc > 1 ? argv[1] : "";
  std::vector<std::string> inc({lib + "/std/"});
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream iss(line);
    int width = 0;
    std::string in;
    std::string out;
    iss >> width >> in >> out;
    try {
      Env env;
      GCLock lock;
      std::ostringstream err;
      Model* m = parse(env, {in}, {}, "", "", inc, {}, false, true, false, false, err);
      if (m == nullptr) {
        std::string e = err.str();
        for (auto& c : e) {
          if (c == '\n') {
            c = ' ';
          }
        }
        std::cout << "error " << e << std::endl;
        continue;
      }
      std::ofstream os(out);
      Printer p(os, width, false, &env.envi());
      p.print(m);
      os.close();
      std::cout << "ok" << std::endl;
    } catch (std::exception& e) {
      std::string w = e.what();
      if (auto* x = dynamic_cast<Exception*>(&e)) {
        w += " " + x->msg();
      }
      for (auto& c : w) {
        if (c == '\n') {
          c = ' ';
        }
      }
      std::cout << "error " << w << std::endl;
    }
  }
  return 0;
}
