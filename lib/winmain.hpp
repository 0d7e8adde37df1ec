// The Windows command line splitter; compiled from the tree's own source in winmain_tu.cpp.
#pragma once
#include <string>
#include <vector>
namespace boost { namespace program_options { std::vector<std::string> split_winmain(const std::string&); std::vector<std::wstring> split_winmain(const std::wstring&); } }
