// The plugin module of C32: what it registers is read from the file beside it (<file>.plugins).
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <dlfcn.h>
#include <fstream>
#include <string>
static int ident = 0;
static std::string self(void) { Dl_info i; return ::dladdr((void *)(&self), &i) ? i.dli_fname : ""; }
static int answer(const int x) { return x * 1000 + ident; }
static std::string readVersion(void) { std::ifstream f(self() + ".plugins"); std::string v; std::getline(f, v); return v; }
static Pothos::ModuleVersion version(readVersion());
pothos_static_block(verifC32Module)
{
    std::ifstream f(self() + ".plugins"); std::string v, path; std::getline(f, v); f >> ident; char kind;
    while (f >> kind >> path) try { if (kind == 'c') Pothos::PluginRegistry::addCall(path, &answer); else Pothos::PluginRegistry::add(path, ident); } catch (const Pothos::Exception &) {}
}
