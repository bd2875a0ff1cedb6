// stand-ins for file streams in the upload parser: no file is touched
#include <fstream>
#include <sstream>
#include <string>
namespace std {
struct psi_ofstream : public std::ostringstream {
    bool o; psi_ofstream() : o(false) {}
    void open(const char*, std::ios_base::openmode = std::ios::out) { o = true; }
    bool is_open() const { return o; }
    void close() { o = false; }
};
struct psi_ifstream : public std::istringstream {
    void open(const char*, std::ios_base::openmode = std::ios::in) {}
    bool is_open() const { return false; }
    void close() {}
};
}
#define ofstream psi_ofstream
#define ifstream psi_ifstream
