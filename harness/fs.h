// Records the file-system effects of the library below a directory, so that the state of the files at
// any moment can be rebuilt (crash points), and makes chosen calls fail (fault injection).
// The binary is linked with --wrap for the calls listed in checks.py (WRAP).
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace fs {

struct Event {
  enum Type { CREATE, WRITE, TRUNC, RENAME, UNLINK, FSYNC } type;
  int inode;
  std::string path, path2;
  int64_t off;
  std::string data;
};

void Start(const std::string& dir);  // forgets everything and starts recording with events which make the present files
void Stop();
size_t Now();  // number of the events so far
const Event& At(size_t i);
std::string Describe(const Event& e);

// The files after the first k events, with only "torn" bytes of the last one if it is a write.
typedef std::map<std::string, std::string> Files;  // names relative to the directory
class Replayer {
 public:
  // Goes forward to k events.
  void To(size_t k);
  Files State(size_t torn = SIZE_MAX) const;
  size_t pos() const { return pos_; }
 private:
  void Apply(const Event& e, size_t limit, std::map<int, std::string>* inodes,
             std::map<std::string, int>* names) const;
  size_t pos_ = 0;
  std::map<int, std::string> inodes_, prev_inodes_;
  std::map<std::string, int> names_, prev_names_;
};
void Materialize(const Files& files, const std::string& dir);
Files Actual(const std::string& dir);

// Fault injection: the calls of the kinds in the mask are counted, and the one of the number fails.
enum Kind { OPEN = 1, PWRITE = 2, PREAD = 4, FTRUNCATE = 8, MMAP = 16, SYNC = 32, RENAME = 64, UNLINK = 128,
            WRITE = 256, READ = 512, CLOSE = 1024, FSTAT = 2048 };
struct Fault {
  int mask = 0;
  long number = -1;   // counted from 0
  int error = 5;      // EIO
  bool sticky = false;  // all later calls of the mask fail too
  bool short_write = false;  // pwrite and write store half of the data before failing
};
void Arm(const std::string& dir, const Fault& fault);
void Disarm();
long Calls();      // counted calls since Arm
bool Fired();
std::string FiredCall();

}  // namespace fs
