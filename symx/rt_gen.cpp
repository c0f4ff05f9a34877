// stand-ins for the generated sources (Version.in.cpp, Paths.in.cpp, Loader.in.cpp)
#include <Pothos/System/Version.hpp>
#include <Pothos/System/Paths.hpp>
#include <Pothos/Plugin/Loader.hpp>
#include <Pothos/Plugin/Module.hpp>
std::string Pothos::System::getApiVersion(void) { return "0.7.0"; } std::string Pothos::System::getAbiVersion(void) { return POTHOS_ABI_VERSION; } std::string Pothos::System::getLibVersion(void) { return "0.7.0"; }
std::string Pothos::System::getRootPath(void) { return "/"; } std::string Pothos::System::getUserConfigPath(void) { return "/"; } std::string Pothos::System::getUserDataPath(void) { return "/"; } std::string Pothos::System::getPothosDevIncludePath(void) { return "/"; } std::string Pothos::System::getPothosDevLibraryPath(void) { return "/"; } std::string Pothos::System::getPothosRuntimeLibraryPath(void) { return "/"; } std::string Pothos::System::getPothosUtilExecutablePath(void) { return "/"; }
std::vector<Pothos::PluginModule> Pothos::PluginLoader::loadModules(void) { return std::vector<Pothos::PluginModule>(); }
