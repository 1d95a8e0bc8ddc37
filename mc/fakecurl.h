// A stand-in for libcurl's easy interface: records what a transfer would send, outcomes are chosen by the harness.
#pragma once
#include <curl/curl.h>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

// curl.h wraps some functions in type checking macros
#undef curl_easy_setopt
#undef curl_easy_getinfo

namespace fakecurl
{
	struct Outcome {
		bool init_fails = false;
		CURLcode code = CURLE_OK; // transport level failure
		long http = 200;
	};
	struct Handle {
		std::string url, copied, user, pass;
		const char *fields = nullptr; // not copied, as in libcurl
		bool has_copied = false, post = false, failonerror = false, has_user = false;
		long long fieldsize = -1;
		long port = 0;
		long auth = CURLAUTH_BASIC;
		std::size_t (*wf)(char *, std::size_t, std::size_t, void *) = nullptr;
		void *wd = nullptr;
		long last_http = 0;
		Outcome next;
		bool used = false;
	};
	struct Transfer { // one attempt
		bool started = false; // false: curl_easy_init failed
		bool ok = false; // accepted by the server
		std::string url, body, user, pass;
		bool has_user = false, post = false;
		long port = 0, auth = 0;
	};
	inline std::function<Outcome()> choose; // asked at curl_easy_init
	inline std::function<void(const Transfer &)> done; // told about every attempt
	inline int live = 0; // handles not cleaned up

	inline std::string form_unescape(const std::string &s, bool &ok)
	{
		std::string r;
		for (std::size_t i = 0; i < s.size(); ++i) {
			if (s[i] == '+') r += ' ';
			else if (s[i] == '%') {
				auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
				if (i + 2 >= s.size() || hex(s[i + 1]) < 0 || hex(s[i + 2]) < 0) {
					ok = false;
					return r;
				}
				r += (char) (hex(s[i + 1]) * 16 + hex(s[i + 2]));
				i += 2;
			} else r += s[i];
		}
		return r;
	}
	inline bool form_decode(const std::string &body, std::multimap<std::string, std::string> &out)
	{
		bool ok = true;
		std::size_t p = 0;
		while (p <= body.size() && !body.empty()) {
			auto e = body.find('&', p);
			if (e == std::string::npos) e = body.size();
			auto item = body.substr(p, e - p);
			auto q = item.find('=');
			if (q == std::string::npos) return false;
			out.emplace(form_unescape(item.substr(0, q), ok), form_unescape(item.substr(q + 1), ok));
			p = e + 1;
		}
		return ok;
	}
} // namespace fakecurl

#ifdef VERIF_FAKECURL
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
char *curl_version(void) { return (char *) "fake"; }
CURL *curl_easy_init(void)
{
	auto o = fakecurl::choose ? fakecurl::choose() : fakecurl::Outcome();
	if (o.init_fails) {
		fakecurl::Transfer t;
		if (fakecurl::done) fakecurl::done(t);
		return nullptr;
	}
	auto *h = new fakecurl::Handle();
	h->next = o;
	++fakecurl::live;
	return (CURL *) h;
}
void curl_easy_cleanup(CURL *c)
{
	if (!c) return;
	delete (fakecurl::Handle *) c;
	--fakecurl::live;
}
void curl_easy_reset(CURL *c)
{
	auto old = *(fakecurl::Handle *) c;
	*(fakecurl::Handle *) c = fakecurl::Handle();
	((fakecurl::Handle *) c)->next = old.next;
	((fakecurl::Handle *) c)->used = old.used;
}
CURLcode curl_easy_setopt(CURL *c, CURLoption o, ...)
{
	auto *h = (fakecurl::Handle *) c;
	va_list ap;
	va_start(ap, o);
	long l = 0;
	void *p = nullptr;
	long long off = 0;
	if (o < CURLOPTTYPE_OBJECTPOINT) l = va_arg(ap, long);
	else if (o < CURLOPTTYPE_OFF_T) p = va_arg(ap, void *);
	else off = va_arg(ap, curl_off_t);
	va_end(ap);
	auto str = [&]() { return p ? std::string((const char *) p) : std::string(); };
	switch (o) {
	case CURLOPT_URL: h->url = str(); break;
	case CURLOPT_PORT: h->port = l; break;
	case CURLOPT_POST: h->post = l; break;
	case CURLOPT_HTTPGET: if (l) h->post = false; break;
	case CURLOPT_POSTFIELDS: h->fields = (const char *) p; h->has_copied = false; h->post = true; break;
	case CURLOPT_COPYPOSTFIELDS:
		h->copied = h->fieldsize >= 0 && p ? std::string((const char *) p, h->fieldsize) : str();
		h->has_copied = true;
		h->post = true;
		break;
	case CURLOPT_POSTFIELDSIZE: h->fieldsize = l; break;
	case CURLOPT_POSTFIELDSIZE_LARGE: h->fieldsize = off; break;
	case CURLOPT_WRITEFUNCTION: h->wf = (std::size_t(*)(char *, std::size_t, std::size_t, void *)) p; break;
	case CURLOPT_WRITEDATA: h->wd = p; break;
	case CURLOPT_FAILONERROR: h->failonerror = l; break;
	case CURLOPT_HTTPAUTH: h->auth = l; break;
	case CURLOPT_USERNAME: h->user = str(); h->has_user = true; break;
	case CURLOPT_PASSWORD: h->pass = str(); h->has_user = true; break;
	case CURLOPT_USERPWD: {
		auto s = str();
		auto q = s.find(':');
		h->user = s.substr(0, q);
		h->pass = q == std::string::npos ? "" : s.substr(q + 1);
		h->has_user = p != nullptr;
		break;
	}
	default: break;
	}
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *c)
{
	auto *h = (fakecurl::Handle *) c;
	fakecurl::Transfer t;
	t.started = true;
	t.url = h->url;
	t.post = h->post;
	t.port = h->port;
	t.auth = h->auth;
	t.user = h->user;
	t.pass = h->pass;
	t.has_user = h->has_user;
	if (h->has_copied) t.body = h->copied;
	else if (h->fields) t.body = h->fieldsize >= 0 ? std::string(h->fields, h->fieldsize) : std::string(h->fields);
	if (h->used && fakecurl::choose) { // a handle used again
		h->next = fakecurl::choose();
		if (h->next.init_fails) h->next.code = CURLE_FAILED_INIT;
	}
	h->used = true;
	auto o = h->next;
	if (fakecurl::choose && o.code == CURLE_OK && o.http < 400) t.ok = true;
	if (!fakecurl::choose) t.ok = true;
	if (h->url.empty()) {
		o.code = CURLE_URL_MALFORMAT;
		t.ok = false;
	}
	CURLcode r = o.code;
	if (r == CURLE_OK) {
		h->last_http = o.http;
		if (h->failonerror && o.http >= 400) r = CURLE_HTTP_RETURNED_ERROR;
		else if (h->wf) {
			char buf[] = "{\"success\": true,\0 \xff}";
			if (h->wf(buf, 1, sizeof buf, h->wd) != sizeof buf) r = CURLE_WRITE_ERROR;
			else if (h->wf(buf, 1, 3, h->wd) != 3) r = CURLE_WRITE_ERROR;
		}
	} else h->last_http = 0;
	if (fakecurl::done) fakecurl::done(t);
	return r;
}
CURLcode curl_easy_getinfo(CURL *c, CURLINFO i, ...)
{
	auto *h = (fakecurl::Handle *) c;
	va_list ap;
	va_start(ap, i);
	void *p = va_arg(ap, void *);
	va_end(ap);
	if (i == CURLINFO_RESPONSE_CODE) *(long *) p = h->last_http;
	return CURLE_OK;
}
const char *curl_easy_strerror(CURLcode) { return "error of the fake transfer"; }
char *curl_easy_escape(CURL *, const char *s, int n)
{
	std::string r;
	std::size_t len = n ? n : std::strlen(s);
	for (std::size_t i = 0; i < len; ++i) {
		unsigned char c = s[i];
		if (std::isalnum(c) || c == '-' || c == '.' || c == '_' || c == '~') r += c;
		else {
			char b[4];
			std::snprintf(b, sizeof b, "%%%02X", c);
			r += b;
		}
	}
	return strdup(r.c_str());
}
char *curl_escape(const char *s, int n) { return curl_easy_escape(nullptr, s, n); }
void curl_free(void *p) { free(p); }
struct curl_slist *curl_slist_append(struct curl_slist *l, const char *s)
{
	auto *n = (curl_slist *) calloc(1, sizeof(curl_slist));
	n->data = strdup(s);
	if (!l) return n;
	auto *e = l;
	while (e->next) e = e->next;
	e->next = n;
	return l;
}
void curl_slist_free_all(struct curl_slist *l)
{
	while (l) {
		auto *n = l->next;
		free(l->data);
		free(l);
		l = n;
	}
}
}
#endif
