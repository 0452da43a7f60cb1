// The hex viewer of gtool1cd: what it paints, where its cursor goes, what it copies, and its edits.
#pragma once
namespace hexv {

// a device that keeps the texts painted on it and where
struct Txt { double x, y; std::string s; };
struct Eng : QPaintEngine {
	std::vector<Txt> out;
	QTransform t;
	Eng() : QPaintEngine(QPaintEngine::AllFeatures) {}
	bool begin(QPaintDevice *) override { return true; }
	bool end() override { return true; }
	void updateState(const QPaintEngineState &s) override { if (s.state() & DirtyTransform) t = s.transform(); }
	void drawPixmap(const QRectF &, const QPixmap &, const QRectF &) override {}
	void drawPath(const QPainterPath &) override {}
	void drawPolygon(const QPointF *, int, PolygonDrawMode) override {}
	void drawTextItem(const QPointF &p, const QTextItem &i) override { QPointF m = t.map(p); out.push_back({m.x(), m.y(), i.text().toUtf8().toStdString()}); }
	Type type() const override { return QPaintEngine::User; }
};
struct Dev : QPaintDevice {
	mutable Eng e; int w, h;
	Dev(int w, int h) : w(w), h(h) {}
	QPaintEngine *paintEngine() const override { return &e; }
	int metric(PaintDeviceMetric m) const override
	{
		switch (m) {
		case PdmWidth: case PdmWidthMM: return w;
		case PdmHeight: case PdmHeightMM: return h;
		case PdmDpiX: case PdmDpiY: case PdmPhysicalDpiX: case PdmPhysicalDpiY: return 96;
		case PdmNumColors: return 1 << 24;
		case PdmDepth: return 32;
		default: return QPaintDevice::metric(m);
		}
	}
};
std::string nosp(const std::string &s) { std::string o; for (char c : s) if (c != ' ' && c != '\0') o += c; return o; }
std::string hx(uint64_t v, int w) { char b[32]; snprintf(b, sizeof b, "%0*llX", w, (unsigned long long)v); return b; }

struct View {
	QHexView v;
	Bytes now;
	View(const Bytes &b, int w, int h) : now(b)
	{
		v.setDocument(QHexDocument::fromMemory<QMemoryBuffer>(QByteArray(b.data(), (int)b.size()), &v));
		v.resize(w, h);
		v.show();
		events();
	}
	Bytes bytes() { QByteArray a = v.document()->read(0, (int)v.document()->length() + 100); return Bytes(a.constData(), a.size()); }
	// the texts painted, in lines from the top, each from left to right
	std::vector<std::vector<Txt>> paint()
	{
		Dev d(v.viewport()->width(), v.viewport()->height());
		v.viewport()->render(&d, QPoint(), QRegion(), QWidget::RenderFlags());
		std::vector<Txt> all = d.e.out;
		std::stable_sort(all.begin(), all.end(), [](const Txt &a, const Txt &b) { return a.y < b.y; });
		std::vector<std::vector<Txt>> o;
		double at = -1e9;
		for (auto &t : all) { if (t.y > at + 4) { o.push_back({}); at = t.y; } o.back().push_back(t); }
		for (auto &l : o) std::stable_sort(l.begin(), l.end(), [](const Txt &a, const Txt &b) { return a.x < b.x; });
		return o;
	}
	static std::string str(const std::vector<Txt> &l) { std::string s; for (auto &t : l) s += t.s; return nosp(s); }
	std::string line(uint64_t l, const Bytes &b) const
	{
		std::string s = hx(l * 16, b.size() + 1 > 0xFFFF ? 8 : 4), a;
		for (uint64_t i = l * 16; i < l * 16 + 16 && i < b.size(); i++) { uint8_t c = b[i]; s += hx(c, 2); a += c >= 0x20 && c < 0x7F ? (char)c : '.'; }
		return s + nosp(a);
	}
	// first line seen and number of lines
	std::pair<uint64_t, uint64_t> check_painted(const std::string &where, const Bytes &b)
	{
		auto p = paint();
		if (p.empty()) mc::fail("hex:paint", where + ": nothing is painted");
		mc::expect_eq("hex:paint", where + ": header", str(p[0]), std::string("Offset000102030405060708090A0B0C0D0E0FAscii"));
		uint64_t first = (uint64_t)v.verticalScrollBar()->value(), lines = b.size() / 16 + 1;
		if (p.size() < 2) mc::fail("hex:paint", where + ": no line is painted");
		for (size_t i = 1; i < p.size(); i++) {
			if (first + i - 1 >= lines) mc::fail("hex:paint", where + ": lines past the end");
			mc::expect_eq("hex:paint", where + ": line " + S(first + i - 1), str(p[i]), line(first + i - 1, b));
		}
		double lh = p.size() > 2 ? p[2][0].y - p[1][0].y : 0;
		if (first + p.size() - 1 < lines && lh > 0 && lh * p.size() + lh < v.viewport()->height()) mc::fail("hex:paint", where + ": lines are missing at the bottom");
		return {first, p.size() - 1};
	}
	void key(int k, Qt::KeyboardModifiers m = Qt::NoModifier, const QString &t = QString())
	{
		QKeyEvent e(QEvent::KeyPress, k, m, t);
		QCoreApplication::sendEvent(&v, &e);
	}
	void type(char c) { key(c >= 'a' ? c - 32 : c, Qt::NoModifier, QString(QChar(c))); }
	// presses the left button over the byte at an offset, in its hexadecimal or its text column; or moves there with it pressed
	void mouse(QEvent::Type what, uint64_t off, bool ascii, int digit = 0)
	{
		auto p = paint();
		uint64_t first = (uint64_t)v.verticalScrollBar()->value(), l = off / 16, len = now.size();
		auto &row = p.at(l - first + 1);
		// the address is the first text; the columns begin where the header's do
		double adv = QFontMetricsF(v.font()).horizontalAdvance(" ");
		std::vector<Txt> h = p[0];
		double hexx = h.at(1).x, asc = 0;
		(void)len;
		for (auto &t : row) if (t.x > hexx + 47.5 * adv) { asc = t.x; break; }
		if (!asc) mc::fail("hex:paint", "no text column");
		double x = ascii ? asc + (off % 16 + 0.5) * adv : hexx + ((off % 16) * 3 + digit + 0.5) * adv;
		QPointF at(x, row[0].y - 3);
		QMouseEvent e(what, at, v.viewport()->mapToGlobal(at), what == QEvent::MouseMove ? Qt::NoButton : Qt::LeftButton, what == QEvent::MouseButtonRelease ? Qt::NoButton : Qt::LeftButton, Qt::NoModifier);
		QCoreApplication::sendEvent(v.viewport(), &e);
	}
	std::string copied()
	{
		QGuiApplication::clipboard()->setText("none");
		key(Qt::Key_C, Qt::ControlModifier, "\x03");
		return Q(QGuiApplication::clipboard()->text());
	}
};
Bytes sample(size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b += (char)(uint8_t)(i * 37 + i / 256 * 11 + n); return b; }
Bytes letters(size_t n) { Bytes b; for (size_t i = 0; i < n; i++) b += (char)('A' + i % 58); return b; }
std::string pairs(const Bytes &b) { std::string s; for (size_t i = 0; i < b.size(); i++) s += (i ? " " : "") + hx((uint8_t)b[i], 2); return s; }

// where the cursor is to be
struct Cur { int64_t l = 0, c = 0; int n = 1; int64_t off() const { return l * 16 + c; } bool operator==(const Cur &o) const { return l == o.l && c == o.c && n == o.n; } };
struct Keys { const char *name; int key; Qt::KeyboardModifiers mod; };
const std::vector<Keys> &keys()
{
	static std::vector<Keys> k = {{"right", Qt::Key_Right, Qt::NoModifier}, {"left", Qt::Key_Left, Qt::NoModifier}, {"down", Qt::Key_Down, Qt::NoModifier}, {"up", Qt::Key_Up, Qt::NoModifier},
		{"pgdn", Qt::Key_PageDown, Qt::NoModifier}, {"pgup", Qt::Key_PageUp, Qt::NoModifier}, {"home", Qt::Key_Home, Qt::NoModifier}, {"end", Qt::Key_End, Qt::NoModifier},
		{"top", Qt::Key_Home, Qt::ControlModifier}, {"bottom", Qt::Key_End, Qt::ControlModifier}};
	return k;
}
Cur moved(Cur p, int k, int64_t len, int64_t page)
{
	int64_t last = len / 16, lc = len % 16;
	page = std::min(page, last + 1);
	switch (k) {
	case 0:
		if (p.off() >= len) return p;
		if (p.n) return {p.l, p.c, 0};
		if (p.c == 15) return {p.l + 1, 0, 1};
		return {p.l, p.c + 1, 1};
	case 1:
		if (!p.n) return {p.l, p.c, 1};
		if (p.c) return {p.l, p.c - 1, 0};
		if (p.l) return {p.l - 1, 15, 0};
		return p;
	case 2: return p.l < last ? Cur{p.l + 1, p.c, 1} : p;
	case 3: return p.l > 0 ? Cur{p.l - 1, p.c, 1} : p;
	case 4: return p.l < last ? Cur{std::min(last, p.l + page), p.c, 1} : p;
	case 5: return p.l > 0 ? Cur{std::max<int64_t>(0, p.l - page), p.c, 1} : p;
	case 6: return {p.l, 0, 1};
	case 7: return p.l == last ? Cur{last, lc, 1} : Cur{p.l, 15, 0};
	case 8: return {0, 0, 1};
	default: return {last, lc, 1};
	}
}
int64_t page_of(int w, int h)
{
	View x(sample(4000), w, h);
	auto p = x.check_painted("page", x.now);
	x.key(Qt::Key_PageDown);
	int64_t n = (int64_t)x.v.document()->cursor()->currentLine();
	if (n < 1 || n > (int64_t)p.second + 1) mc::fail("hex:page", "a page is " + S(n) + " lines of " + S(p.second) + " seen");
	return n;
}

void run(mc::Run &r)
{
	// everything is painted as it is, wherever it is scrolled to
	for (size_t n : {0, 1, 2, 9, 15, 16, 17, 31, 32, 33, 47, 48, 100, 160, 255, 256, 257, 1000, 5000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10020}) for (int shape = 0; shape < 3; shape++) r.scenario("g07/paint/" + S(n) + "/" + S(shape), [&] {
		App::get(r);
		static const int ws[] = {900, 900, 300}, hs[] = {300, 120, 200};
		View x(sample(n), ws[shape], hs[shape]);
		QScrollBar *sb = x.v.verticalScrollBar();
		uint64_t upto = 0;
		int step = sb->maximum() > 600 && !r.thorough ? 7 : 1;
		for (int at = 0; at <= sb->maximum(); at = at == sb->maximum() ? at + 1 : std::min(sb->maximum(), at + step)) {
			sb->setValue(at);
			if (sb->value() != at) mc::fail("hex:scroll", "cannot scroll to " + S(at));
			if ((uint64_t)at >= n / 16 + 1) break; // a short value in a high window
			auto p = x.check_painted("line " + S(at), x.now);
			if (at == sb->maximum() || p.first <= upto) upto = std::max(upto, p.first + p.second);
			r.step();
		}
		mc::expect_eq("hex:scroll", "lines that can be seen", upto, (uint64_t)(n / 16 + 1));
		mc::expect_eq("hex:bytes", "bytes", x.bytes(), x.now);
	});
	// keys: every history of movements and selections
	int len = r.thorough ? 4 : 3, nk = (int)keys().size() * 2;
	for (size_t n : {0, 1, 5, 15, 16, 17, 32, 40, 200}) for (int k0 = 0; k0 < nk; k0++) r.scenario("g07/keys/" + S(n) + "/" + keys()[k0 / 2].name + (k0 % 2 ? "+" : ""), [&] {
		App::get(r);
		const int W = 900, H = 120;
		int64_t page = page_of(W, H), L = (int64_t)n;
		View x(sample(n), W, H);
		QHexCursor *c = x.v.document()->cursor();
		long total = 1;
		for (int i = 1; i < len; i++) total *= nk;
		for (int start = 0; start < 3; start++) for (long s = 0; s < total; s++) {
			int64_t so = start == 0 ? 0 : start == 1 ? L / 2 : L;
			Cur a{so / 16, so % 16, 1}, p = a;
			c->moveTo((quint64)a.l, (int)a.c, 1);
			std::string where = "from " + S(so);
			std::vector<int> h{k0};
			for (long q = s, i = 1; i < len; i++, q /= nk) h.push_back((int)(q % nk));
			for (int k : h) {
				bool sel = k % 2;
				const Keys &kk = keys()[k / 2];
				where += std::string(" ") + kk.name + (sel ? "+" : "");
				r.step();
				x.key(kk.key, kk.mod | (sel ? Qt::ShiftModifier : Qt::NoModifier));
				Cur np = moved(p, k / 2, L, page);
				bool went = !(np == p) || k / 2 >= 6;
				p = np;
				if (!sel && went) a = p;
				if ((int64_t)c->position().offset() != p.off() || (int64_t)c->currentLine() != p.l) mc::fail("hex:cursor", where + ": the cursor is at line " + S(c->currentLine()) + ", byte " + S(c->position().offset()) + " instead of " + S(p.l) + ", " + S(p.off()));
			}
			std::string want = "none";
			if (!(p == a)) {
				int64_t b = std::min(p.off(), a.off()), e = std::max(p.off(), a.off());
				want = b < L ? pairs(x.now.substr(b, e - b + 1)) : "";
			}
			mc::expect_eq("hex:copy", where + ": copied", x.copied(), want);
			if (s % 7 == 0 && p.l <= L / 16) {
				auto q = x.check_painted(where, x.now);
				if ((uint64_t)p.l < q.first || (uint64_t)p.l >= q.first + q.second) mc::fail("hex:seen", where + ": the cursor in line " + S(p.l) + " is not in sight");
			}
		}
	});
	// everything selected
	for (size_t n : {1, 2, 15, 16, 17, 31, 32, 33, 256, 1000, 5000, 70000}) r.scenario("g07/all/" + S(n), [&] {
		App::get(r);
		View x(sample(n), 900, 200);
		for (int before = 0; before < 4; before++) {
			if (before == 1) x.key(Qt::Key_End, Qt::ControlModifier);
			if (before == 2) x.key(Qt::Key_Down, Qt::ShiftModifier);
			if (before == 3) x.key(Qt::Key_PageDown);
			r.step();
			x.key(Qt::Key_A, Qt::ControlModifier, "\x01");
			mc::expect_eq("hex:copy", "all " + S(n) + " bytes after " + S(before), x.copied(), pairs(x.now));
		}
	});
	// the mouse: every pair of bytes pressed on and dragged to, in both columns
	for (size_t n : {1, 3, 16, 17, 40, 60}) for (int ascii = 0; ascii < 2; ascii++) r.scenario("g07/mouse/" + S(n) + "/" + (ascii ? "text" : "hex"), [&] {
		App::get(r);
		View x(letters(n), 900, 260);
		int digits = ascii ? 1 : 2;
		for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (int d = 0; d < digits; d++) {
			if (!r.thorough && n > 20 && (a * 7 + b) % 5) continue;
			std::string where = S(a) + " to " + S(b) + ", digit " + S(d);
			r.step();
			x.mouse(QEvent::MouseButtonPress, a, ascii, d);
			mc::expect_eq("hex:click", where + ": cursor", (int64_t)x.v.document()->cursor()->position().offset(), (int64_t)a);
			x.mouse(QEvent::MouseMove, b, ascii, d);
			x.mouse(QEvent::MouseButtonRelease, b, ascii, d);
			mc::expect_eq("hex:click", where + ": cursor", (int64_t)x.v.document()->cursor()->position().offset(), (int64_t)b);
			if (a != b) {
				Bytes part = x.now.substr(std::min(a, b), std::max(a, b) - std::min(a, b) + 1);
				mc::expect_eq("hex:copy", where + ": copied", x.copied(), ascii ? part : pairs(part));
			}
		}
	});
	// typing over and into the bytes, at every place
	for (size_t n : {0, 1, 3, 16, 17, 33}) for (int ascii = 0; ascii < 2; ascii++) for (int insert = 0; insert < 2; insert++) r.scenario("g07/type/" + S(n) + "/" + (ascii ? "text" : "hex") + (insert ? "+ins" : ""), [&] {
		App::get(r);
		for (size_t at = 0; at <= n; at++) for (int k = 1; k <= 5; k++) {
			if (ascii && !n) continue;
			View x(letters(n), 900, 200);
			std::string where = S(k) + " at " + S(at);
			if (ascii) { x.mouse(QEvent::MouseButtonPress, 0, true); x.mouse(QEvent::MouseButtonRelease, 0, true); }
			x.v.document()->cursor()->moveTo(at / 16, (int)(at % 16), 1);
			if (insert) x.key(Qt::Key_Insert);
			Bytes want = x.now;
			std::vector<Bytes> was;
			size_t o = at; bool high = true;
			for (int i = 0; i < k; i++) {
				was.push_back(want);
				r.step();
				if (ascii) {
					char c = "x Z~5"[i];
					x.type(c);
					if (insert || o >= want.size()) want.insert(o, 1, c); else want[o] = c;
					o++;
				} else {
					int d = (i * 5 + 3 + (int)at) % 16;
					x.type("0123456789abcdef"[d]);
					if (high) { if (insert || o >= want.size()) want.insert(o, 1, (char)(d << 4)); else want[o] = (char)(((uint8_t)want[o] & 15) | d << 4); }
					else { want[o] = (char)(((uint8_t)want[o] & 0xF0) | d); o++; }
					high = !high;
				}
				mc::expect_eq("hex:type", where + ": bytes after key " + S(i), x.bytes(), want);
			}
			x.check_painted(where, want);
			for (int i = k; i--;) { x.key(Qt::Key_Z, Qt::ControlModifier, "\x1a"); mc::expect_eq("hex:undo", where + ": undone to " + S(i), x.bytes(), was[i]); }
			mc::expect_eq("hex:undo", where + ": all undone", x.bytes(), x.now);
			x.check_painted(where, x.now);
		}
	});
	// keys that edit, with and without a selection
	for (size_t n : {0, 1, 3, 16, 17, 33}) for (int ascii = 0; ascii < 2; ascii++) for (int insert = 0; insert < 2; insert++) r.scenario("g07/selected/" + S(n) + "/" + (ascii ? "text" : "hex") + (insert ? "+ins" : ""), [&] {
		App::get(r);
		if (ascii && !n) return;
		const Bytes pasted = ascii ? Bytes("p{ q") : Bytes("\x0a\xff\x31\x00", 4);
		const std::string text = ascii ? std::string("p{ q") : pairs(pasted);
		for (size_t a = 0; a <= n; a++) for (size_t b = 0; b <= n; b++) for (int what = 0; what < 5; what++) {
			bool sel = a < n && b < n;
			if (!sel && b != n) continue;
			if (!r.thorough && n > 20 && sel && (a * 5 + b) % 4) continue;
			View x(letters(n), 900, 200);
			r.step();
			if (ascii) { x.mouse(QEvent::MouseButtonPress, 0, true); x.mouse(QEvent::MouseButtonRelease, 0, true); }
			QHexCursor *c = x.v.document()->cursor();
			if (insert) x.key(Qt::Key_Insert);
			c->moveTo(a / 16, (int)(a % 16), 1);
			if (sel) c->select(b / 16, (int)(b % 16), 0);
			size_t lo = sel ? std::min(a, b) : a, cnt = sel ? std::max(a, b) - lo + 1 : 0;
			Bytes want = x.now, part = want.substr(lo, cnt);
			std::string where = (sel ? S(a) + " to " + S(b) : "at " + S(a)) + ", action " + S(what);
			want.erase(lo, cnt);
			auto put = [&](const Bytes &d) { if (insert) want.insert(lo, d); else want.replace(lo, std::min(d.size(), want.size() - lo), d); };
			QGuiApplication::clipboard()->setText(U(text));
			switch (what) {
			case 0: x.key(Qt::Key_Delete); if (!sel && lo < n) want.erase(lo, 1); break;
			case 1: x.key(Qt::Key_Backspace); if (!sel && lo > 0) want.erase(lo - 1, 1); break;
			case 2: {
				x.type('7');
				if (ascii) { if (lo < want.size()) put("7"); else want += "7"; }
				else if (insert || lo >= want.size()) want.insert(lo, 1, (char)0x70);
				else want[lo] = (char)(((uint8_t)want[lo] & 15) | 0x70);
				break;
			}
			case 3:
				x.key(Qt::Key_X, Qt::ControlModifier, "\x18");
				mc::expect_eq("hex:copy", where + ": cut", Q(QGuiApplication::clipboard()->text()), sel ? (ascii ? part : pairs(part)) : text);
				break;
			case 4: x.key(Qt::Key_V, Qt::ControlModifier, "\x16"); put(pasted); break;
			}
			mc::expect_eq("hex:selected", where + ": bytes", x.bytes(), want);
			if ((a + b + what) % 3 == 0) x.check_painted(where, want);
			for (int i = 0; i < 5 && x.v.document()->canUndo(); i++) x.key(Qt::Key_Z, Qt::ControlModifier, "\x1a");
			mc::expect_eq("hex:undo", where + ": all undone", x.bytes(), x.now);
			for (int i = 0; i < 5 && x.v.document()->canRedo(); i++) x.key(Qt::Key_Z, Qt::ControlModifier | Qt::ShiftModifier, "\x1a");
			mc::expect_eq("hex:undo", where + ": all redone", x.bytes(), want);
		}
	});
	// edits of the document: every history
	const int NE = 11;
	int el = r.thorough ? 5 : 4;
	for (size_t n : {0, 1, 2, 5, 17}) for (int e0 = 0; e0 < NE; e0++) r.scenario("g07/edit/" + S(n) + "/" + S(e0), [&] {
		App::get(r);
		long total = 1;
		for (int i = 1; i < el; i++) total *= NE;
		for (long s = 0; s < total; s++) {
			QObject own;
			QHexDocument *d = QHexDocument::fromMemory<QMemoryBuffer>(QByteArray(letters(n).data(), (int)n), &own);
			std::vector<Bytes> hist{letters(n)};
			size_t at = 0;
			std::string where = "edits";
			std::vector<int> h{e0};
			for (long q = s, i = 1; i < el; i++, q /= NE) h.push_back((int)(q % NE));
			for (int e : h) {
				Bytes b = hist[at];
				size_t m = b.size() / 2, l = b.empty() ? 0 : b.size() - 1;
				where += " " + S(e);
				r.step();
				auto put = [&](const Bytes &nb) { hist.resize(at + 1); hist.push_back(nb); at++; };
				auto rep = [&](size_t o, const Bytes &x) { d->replace((qint64)o, QByteArray(x.data(), (int)x.size())); Bytes y = b; y.replace(o, std::min(x.size(), y.size() - o), x); put(y); };
				auto ins = [&](size_t o, const Bytes &x) { d->insert((qint64)o, QByteArray(x.data(), (int)x.size())); Bytes y = b; y.insert(o, x); put(y); };
				auto rem = [&](size_t o, int c) { d->remove((qint64)o, c); Bytes y = b; y.erase(o, c); put(y); };
				switch (e) {
				case 0: ins(0, "1"); break;
				case 1: ins(m, Bytes("2\0003", 3)); break;
				case 2: ins(b.size(), "45"); break;
				case 3: rep(0, "6"); break;
				case 4: rep(m, "78"); break;
				case 5: rep(l, "9!?"); break;
				case 6: rem(0, 1); break;
				case 7: rem(m, 2); break;
				case 8: rem(l, 5); break;
				case 9: d->undo(); if (at) at--; break;
				case 10: d->redo(); if (at + 1 < hist.size()) at++; break;
				}
				mc::expect_eq("hex:edit", where + ": length", (size_t)d->length(), hist[at].size());
				QByteArray got = d->read(0, (int)d->length());
				mc::expect_eq("hex:edit", where + ": bytes", Bytes(got.constData(), got.size()), hist[at]);
				mc::expect_eq("hex:edit", where + ": can undo", d->canUndo(), at > 0);
				mc::expect_eq("hex:edit", where + ": can redo", d->canRedo(), at + 1 < hist.size());
			}
		}
	});
}

}
