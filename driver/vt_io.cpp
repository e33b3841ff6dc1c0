#include "vt_io.h"
#include "FUtils/FUError.h"
#include <fstream>
#include <sstream>
#include <unistd.h>

namespace vt {
FCDocument* saveload(FCDocument* doc, std::string* xml)
{
	std::string path = scratch() + "/x.dae";
	fstring name = TO_FSTRING(path.c_str());
	unlink(path.c_str());
	if (getenv("VT_SHOW") != NULL) fprintf(stderr, "saving %s\n", path.c_str());
	bool saved = FCollada::SaveDocument(doc, name.c_str());
	if (getenv("VT_SHOW") != NULL) { std::ifstream f(path); std::stringstream s; s << f.rdbuf(); fprintf(stderr, "%s\n", s.str().c_str()); }
	doc->Release();
	if (!saved) return NULL;
	if (xml != NULL) { std::ifstream f(path); std::stringstream s; s << f.rdbuf(); *xml = s.str(); }
	doc = FCollada::NewTopDocument();
	// what was saved is read without any error; a set without faces is no error
	int errors = 0;
	FUError::AddErrorCallback(FUError::ERROR_LEVEL, &errors, [&errors](FUError::Level, uint32 code, uint32 line)
	{
		if (code == FUError::WARNING_NO_POLYGON) return;
		++errors;
		const char* text = FUError::GetErrorString((FUError::Code) code);
		if (getenv("VT_SHOW") != NULL) fprintf(stderr, "loading: line %u: %s\n", (unsigned) line, text != NULL ? text : "?");
	});
	bool loaded = FCollada::LoadDocumentFromFile(doc, name.c_str());
	FUError::RemoveErrorCallback(FUError::ERROR_LEVEL, &errors);
	if (!loaded || errors > 0) { doc->Release(); doc = NULL; }
	unlink(path.c_str());
	return doc;
}

static std::string saved(FCDocument* doc)
{
	std::string path = scratch() + "/save.dae";
	unlink(path.c_str());
	if (!FCollada::SaveDocument(doc, TO_FSTRING(path.c_str()).c_str())) return "";
	std::ifstream f(path); std::stringstream s; s << f.rdbuf();
	unlink(path.c_str());
	std::string x = s.str();
	for (size_t p = 0; (p = x.find("<modified>", p)) != std::string::npos; ) x.erase(p, x.find("</modified>", p) - p);
	return x;
}

J twice(FCDocument* doc)
{
	std::string first = saved(doc), second = saved(doc);
	if (first.empty() || second.empty()) return "save";
	if (first == second) return 1;
	if (getenv("VT_SHOW") != NULL) { std::ofstream(scratch() + "/1.xml") << first; std::ofstream(scratch() + "/2.xml") << second; fprintf(stderr, "saved twice: see %s\n%s\n----\n%s\n", scratch().c_str(), first.c_str(), second.c_str()); }
	return 0;
}
}
