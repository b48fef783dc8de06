// Stand-in for ROOT's object store: files are tables in memory, a file hands out copies of the objects
// written to it which it owns, as ROOT's does.
#pragma once
#include <map>
#include <memory>
#include <string>
class TObject {
public:
  virtual ~TObject() {}
  virtual TObject *StubCopy() const = 0;
};
typedef std::map<std::string, std::map<std::string, std::shared_ptr<TObject>>> StubStore;
inline StubStore &stubStore() { static StubStore s; return s; }
