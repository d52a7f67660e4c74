// Simulated disk: everything below /simfs/ lives in memory, behind the libc entry points
// (fopen, open, read, write, ...), with seeded faults.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace simfs {
void reset();                                  // empty disk, working directory /simfs/cwd
void put(const std::string& path, const std::string& bytes); // creates parents
bool get(const std::string& path, std::string& bytes);
bool exists(const std::string& path);
void remove(const std::string& path);
void mkdirs(const std::string& path);
std::vector<std::string> list();               // regular files
int open_handles();                            // open virtual descriptors
std::string handle_names();
void set_capacity(size_t bytes);               // total bytes on disk; 0: unlimited
std::string cwd();
void set_cwd(const std::string& path);
struct Chdir {
    std::string path;
    bool ok;                                   // false: refused by a fault
    int thread;
};
const std::vector<Chdir>& chdirs();
void virtual_cwd(bool on);                     // getcwd and chdir act on the simulated disk
// Write journal: every change of a file's bytes in order.
struct Change {
    std::string path;
    int kind; // 0 write, 1 truncate, 2 create, 3 remove/rename target
    size_t off;
    std::string data;
};
const std::vector<Change>& journal();
void journal_clear();
// content of `path` if the machine had stopped after n whole changes plus the first `torn` bytes of the next
bool image_at(const std::string& path, size_t n, size_t torn, std::string& out);
// Fault kinds (enable with sim::fault_enable):
//   fs.open  fs.read  fs.short-read  fs.eintr  fs.write  fs.enospc  fs.short-write  fs.close  fs.seek
//   fs.stat  fs.mmap  fs.getcwd  fs.chdir  fs.mkdir
// Number of faults that made an operation fail (short and interrupted transfers are not counted)
uint64_t errors();
uint64_t write_errors();
uint64_t ops();
// keep the journal in memory shared with the parent process (call first in the scenario)
void mirror();
std::map<std::string, std::string> mirrored(); // in the parent (post): files as the dead child left them
} // namespace simfs
