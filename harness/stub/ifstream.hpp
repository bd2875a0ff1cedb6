// stand-in for std::ifstream in request_handler.cpp: records the path, opens nothing real
#include <fstream>
#include <sstream>
#include <string>
namespace std {
struct psi_ifstream : public std::istringstream {
    static std::string& opened() { static std::string s; return s; }
    static int& count() { static int n; return n; }
    static std::string& content() { static std::string s; return s; }
    psi_ifstream(const char* p, std::ios_base::openmode = std::ios::in) : std::istringstream(content()) { opened() = p; count()++; }
    psi_ifstream(const std::string& p, std::ios_base::openmode = std::ios::in) : std::istringstream(content()) { opened() = p.c_str(); count()++; }
    bool is_open() { return true; }
    void close() {}
};
}
#define ifstream psi_ifstream
