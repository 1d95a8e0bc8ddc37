// Result of a harness run: a JSON file that check.py turns into the evidence file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <vector>

namespace report
{
	inline std::string esc(const std::string &s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') {
				r += '\\';
				r += (char) c;
			} else if (c < 32 || c > 126) {
				char b[8];
				std::snprintf(b, sizeof b, "\\u%04x", c);
				r += b;
			} else {
				r += (char) c;
			}
		}
		return r + "\"";
	}
	struct Result {
		std::map<std::string, std::uint64_t> counts;
		std::vector<std::string> samples; // plain text
		std::vector<std::string> parts; // JSON objects, one per scenario
		bool exhaustive = true;
		std::vector<std::pair<std::string, std::string>> violations; // text, replay content
		std::vector<std::string> notes;
		void write(const std::string &path) const
		{
			FILE *f = std::fopen(path.c_str(), "w");
			std::string o = "{\"counts\": {";
			bool first = true;
			for (auto &c : counts) {
				o += std::string(first ? "" : ", ") + esc(c.first) + ": " + std::to_string(c.second);
				first = false;
			}
			o += "}, \"exhaustive\": ";
			o += exhaustive ? "true" : "false";
			auto list = [&](const char *n, const std::vector<std::string> &v, bool raw) {
				o += std::string(", \"") + n + "\": [";
				for (std::size_t i = 0; i < v.size(); ++i) o += (i ? ", " : "") + (raw ? v[i] : esc(v[i]));
				o += "]";
			};
			list("samples", samples, false);
			list("parts", parts, true);
			list("notes", notes, false);
			o += ", \"violations\": [";
			for (std::size_t i = 0; i < violations.size(); ++i)
				o += std::string(i ? ", " : "") + "{\"text\": " + esc(violations[i].first) + ", \"replay\": " + esc(violations[i].second) + "}";
			o += "]}\n";
			std::fputs(o.c_str(), f);
			std::fclose(f);
		}
	};
} // namespace report
