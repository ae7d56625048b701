// Reads traces written by builds with tracing enabled.
#ifndef VF_TRACE_PARSE_H_
#define VF_TRACE_PARSE_H_

#include <cctype>
#include <map>
#include <string>
#include <vector>

namespace vf {

struct TraceLine {
  std::string file;
  int line = 0;
  int indent = 0;
  std::string text;
};
struct TraceSection {
  int id = 0;
  std::vector<TraceLine> lines;
};

inline bool StartsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
inline bool EndsWith(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }

// Returns "" or what is wrong with the form of the trace.
inline std::string ParseTrace(const std::string& all, bool html, std::vector<TraceSection>* out) {
  std::map<std::string, std::string> colors;
  std::size_t pos = 0;
  int number = 0;
  bool fresh = false;  // an HTML document begins
  auto next = [&](std::string* s) {
    if (pos >= all.size()) return false;
    std::size_t e = all.find('\n', pos);
    if (e == std::string::npos) return false;
    *s = all.substr(pos, e - pos);
    pos = e + 1;
    number++;
    return true;
  };
  auto bad = [&](const std::string& what, const std::string& s) { return what + " at line " + std::to_string(number) + ": '" + s.substr(0, 200) + "'"; };
  if (!all.empty() && all.back() != '\n') return "the trace is cut off";
  std::string s;
  const std::string head = "Ruy trace for thread ";
  bool in_section = false;
  while (next(&s)) {
    if (!in_section) {
      if (html) {
        if (s != "<html><body><pre>") return bad("no start of an HTML document", s);
        if (!next(&s) || s != "<span style=\"font-weight:bold\">") return bad("no heading", s);
        if (!next(&s)) return "the trace is cut off";
      }
      if (!StartsWith(s, head) || s.back() != ':') return bad("no heading of a thread", s);
      TraceSection t;
      t.id = atoi(s.c_str() + head.size());
      if (s != head + std::to_string(t.id) + ":") return bad("no heading of a thread", s);
      if (html && (!next(&s) || s != "</span>")) return bad("heading not closed", s);
      out->push_back(std::move(t));
      in_section = true;
      fresh = true;
      continue;
    }
    if (s.empty()) {
      if (html && (!next(&s) || s != "</pre></body></html>")) return bad("document not closed", s);
      in_section = false;
      continue;
    }
    fresh = false;
    // Color, place in the source, indentation, text.
    std::string color, end;
    if (html) {
      const std::string p = "<span style=\"background-color:#";
      if (!StartsWith(s, p)) return bad("no color", s);
      std::size_t e = s.find("\">");
      if (e != p.size() + 6) return bad("no color", s);
      color = s.substr(p.size(), 6);
      s = s.substr(e + 2);
      end = "</span>";
    } else {
      if (!StartsWith(s, "\x1b[") || s.size() < 5 || s[4] != 'm') return bad("no color", s);
      color = s.substr(2, 2);
      s = s.substr(5);
      end = "\x1b[0m";
    }
    if (!EndsWith(s, end)) return bad("color not ended", s);
    s.resize(s.size() - end.size());
    TraceLine l;
    std::size_t c = s.find(':');
    if (c == std::string::npos || c == 0) return bad("no place in the source", s);
    l.file = s.substr(0, c);
    if (l.file.find('/') != std::string::npos || l.file.find(' ') != std::string::npos) return bad("no place in the source", s);
    std::size_t q = c + 1;
    while (q < s.size() && isdigit(static_cast<unsigned char>(s[q]))) q++;
    if (q == c + 1) return bad("no place in the source", s);
    l.line = atoi(s.c_str() + c + 1);
    if (l.line <= 0) return bad("no place in the source", s);
    if (q < 32) {
      if (s.size() < 32 || s.find_first_not_of(' ', q) < 32) return bad("place in the source not padded", s);
      q = 32;
    }
    std::size_t t = s.find_first_not_of(' ', q);
    if (t == std::string::npos) return bad("no text", s);
    if ((t - q) % 2) return bad("odd indentation", s);
    l.indent = (t - q) / 2;
    l.text = s.substr(t);
    if (html) {
      if (l.text.find_first_of("<>") != std::string::npos) return bad("angle bracket not escaped", s);
      std::string plain;
      for (std::size_t i = 0; i < l.text.size(); i++) {
        if (l.text.compare(i, 4, "&lt;") == 0) { plain += '<'; i += 3; }
        else if (l.text.compare(i, 4, "&gt;") == 0) { plain += '>'; i += 3; }
        else plain += l.text[i];
      }
      l.text = plain;
    }
    auto it = colors.emplace(l.file, color).first;
    if (it->second != color) return bad("two colors for " + l.file, s);
    out->back().lines.push_back(std::move(l));
  }
  (void)fresh;
  if (in_section) return "the trace of the last thread is not ended";
  for (std::size_t i = 1; i < out->size(); i++)
    if ((*out)[i].id < (*out)[i - 1].id) return "thread " + std::to_string((*out)[i].id) + " after thread " + std::to_string((*out)[i - 1].id);
  return "";
}

// Checks that scopes are properly nested, indented and all ended.
inline std::string CheckScopes(const TraceSection& t, int* scopes) {
  std::vector<std::pair<std::string, std::string>> open;
  for (const TraceLine& l : t.lines) {
    const std::string close = "}  // end of ";
    const std::string place = l.file + ":" + std::to_string(l.line);
    if (StartsWith(l.text, close)) {
      if (open.empty()) return "end of a scope that was not begun: " + l.text;
      if (l.text.substr(close.size()) != open.back().first) return "scope " + open.back().first + " ended by '" + l.text + "'";
      if (place != open.back().second) return "scope " + open.back().first + " begun at " + open.back().second + " and ended at " + place;
      open.pop_back();
      if (l.indent != static_cast<int>(open.size())) return "indentation " + std::to_string(l.indent) + " inside " + std::to_string(open.size()) + " scopes: " + l.text;
      continue;
    }
    if (l.indent != static_cast<int>(open.size())) return "indentation " + std::to_string(l.indent) + " inside " + std::to_string(open.size()) + " scopes: " + l.text;
    if (EndsWith(l.text, " {")) {
      open.emplace_back(l.text.substr(0, l.text.size() - 2), place);
      ++*scopes;
    }
  }
  if (!open.empty()) return "scope " + open.back().first + " never ended";
  return "";
}

}  // namespace vf
#endif
