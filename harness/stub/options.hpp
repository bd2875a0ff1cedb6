// Stand-in for reading an annotator's default options: of the options only the language counts.
#include <string>
#include <boost/program_options.hpp>
namespace boost { namespace program_options {
struct psi_parsed { std::string lang; };
inline psi_parsed psi_parse(int argc, const char* const* argv, const options_description&) {
    psi_parsed r; r.lang = "guess";
    for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--lang") r.lang = argv[i + 1];
    return r;
}
inline void store(const psi_parsed& p, variables_map& m) { static_cast<std::map<std::string, variable_value>&>(m)["lang"] = variable_value(boost::any(p.lang), true); }
} }
#define parse_command_line psi_parse
