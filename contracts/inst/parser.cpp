// instantiates the templates of input_parser.hpp that are put under contract (the bodies are those of /repo)
#include "input_parser.hpp"
typedef const std::string &S; typedef YAML::Node N;
#define ALL(T) \
template const T InputParser::GetRequiredOptionFromDict<T>(S, N); template const T InputParser::GetOptionFromDict<T>(S, const T &, N); \
template const T InputParser::GetRequiredOption<T>(S); template const T InputParser::GetOption<T>(S, const T &); \
template void InputParser::SetOptionInDict<T>(S, const T &, N); template void InputParser::SetOption<T>(S, const T &);
ALL(int) ALL(double) ALL(bool) ALL(std::string)
template void InputParser::SetOptionInDict<YAML::Node>(S, const YAML::Node &, N); template void InputParser::SetOption<YAML::Node>(S, const YAML::Node &);
template N InputParser::LookUpFromDict<std::string>(S, const std::string &, N); template N InputParser::LookUpFromDict<int>(S, const int &, N);
template const int InputParser::LookUpFromDict<std::string, int>(S, const std::string &, S, const int &, N);
template struct YAML::convert<mfem::Array<int>>; template struct YAML::convert<mfem::Array<double>>;
