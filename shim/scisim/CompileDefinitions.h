#ifndef COMPILE_DEFINITIONS_H
#define COMPILE_DEFINITIONS_H
namespace CompileDefinitions
{
  constexpr char GitSHA1[] = "0123456789abcdef0123456789abcdef01234567";
  constexpr char BuildMode[] = "Release";
  constexpr char CCompiler[] = "cc";
  constexpr char CXXCompiler[] = "c++";
}
#endif
