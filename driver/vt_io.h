#pragma once
#include "vt.h"
#include "FCDocument/FCDocument.h"
namespace vt {
FCDocument* saveload(FCDocument* doc, std::string* xml = NULL); // saves, releases and loads again; NULL on failure
J twice(FCDocument* doc); // saves the document twice: 1 when both files are the same, but for the date
}
