From d3fca0109528582369db1f21163e9130ca10d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 001/129] fix: whole-object reads and writes lost the last page
 after a full allocation table

---
 src/tool1cd/V8Object.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 163aa01..0eb53c3 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -346,11 +346,15 @@ char* V8Object::get_data()
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
-				if(l <= curlen) break;
+				if(l <= curlen)
+				{
+					l = 0;
+					break;
+				}
 				l -= curlen;
 				tt += DEFAULT_PAGE_SIZE;
 			}
-			if(l <= curlen) break;
+			if(l == 0) break;
 		}
 	}
 	else if(type == v8objtype::data838)
@@ -369,11 +373,15 @@ char* V8Object::get_data()
 				{
 					curlen = ll > pagesize ? pagesize : ll;
 					base->get_block(tt, bb->blocks[j], curlen);
-					if(ll <= curlen) break;
+					if(ll <= curlen)
+					{
+						ll = 0;
+						break;
+					}
 					ll -= curlen;
 					tt += pagesize;
 				}
-				if(ll <= curlen) break;
+				if(ll == 0) break;
 			}
 		}
 		else
@@ -792,11 +800,12 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 				memcpy(tt, buf, curlen);
 				buf += DEFAULT_PAGE_SIZE;
 				if(_length <= curlen) {
+					_length = 0;
 					break;
 				}
 				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(_length == 0) {
 				break;
 			}
 		}
@@ -889,11 +898,12 @@ bool V8Object::set_data(TStream* stream)
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				stream->ReadBuffer(tt, curlen);
 				if(_length <= curlen) {
+					_length = 0;
 					break;
 				}
 				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(_length == 0) {
 				break;
 			}
 		}
-- 
2.43.0


From 7c319ed0c996daa417c4a3a17f46e0e3497abb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 002/129] fix: reading a range of a cached object past its end
 was not refused

---
 src/tool1cd/V8Object.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 0eb53c3..1edd919 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -420,7 +420,18 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 	lastdataget = GetTickCount();
 
-	if(data) memcpy(buf, data + _start, _length);
+	if(data)
+	{
+		if(_start + _length > get_len())
+		{
+			throw DetailedException("Попытка чтения данных за пределами объекта")
+				.add_detail("Номер блока объекта", to_hex_string(block))
+				.add_detail("Длина объекта", get_len())
+				.add_detail("Начало читаемых данных", _start)
+				.add_detail("Длина читаемых данных", _length);
+		}
+		memcpy(buf, data + _start, _length);
+	}
 	else
 	{
 		if(type == v8objtype::free80)
-- 
2.43.0


From 8e981057180805a029d76e5f809056e896df8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 003/129] fix: physical offsets of objects longer than 4 GiB
 were truncated

---
 src/tool1cd/V8Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 1edd919..483d983 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -605,7 +605,7 @@ void V8Object::savetofile(const boost::filesystem::path &path)
 //---------------------------------------------------------------------------
 uint64_t V8Object::get_fileoffset(uint64_t offset)
 {
-	uint32_t _start = offset;
+	uint64_t _start = offset;
 	objtab* b;
 	objtab838* bb;
 	uint32_t curblock;
-- 
2.43.0


From 5d6fd9e1bd196d29655668c385366ea7ad3d4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 004/129] fix: off-by-one in the bounds check of
 V8Object::get_block_by_index

---
 src/tool1cd/V8Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 483d983..c4069a5 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1383,7 +1383,7 @@ uint32_t V8Object::get_numblocks() const
 
 uint32_t V8Object::get_block_by_index(const uint32_t index) const
 {
-	if(index > numblocks) {
+	if(index >= numblocks) {
 		throw std::out_of_range("Индекс за границами массива блоков!");
 	}
 
-- 
2.43.0


From 16bfa144db98ef16cb71c2812419f944011d7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 005/129] fix: writing zero bytes at the end of an object read
 past its allocation table

---
 src/tool1cd/V8Object.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index c4069a5..7c42bb1 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -699,6 +699,12 @@ bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 		curoffblock = _start - (curblock << 12);
 		curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE - curoffblock), _length);
 
+		if(_length == 0)
+		{
+			write_new_version();
+			return true;
+		}
+
 		curobjblock = curblock / 1023;
 		curoffobjblock = curblock - curobjblock * 1023;
 
@@ -729,7 +735,7 @@ bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 		curoffblock = _start - (curblock * base->get_pagesize());
 		curlen = std::min(static_cast<uint64_t>(base->get_pagesize() - curoffblock), _length);
 
-		if(fatlevel)
+		if(fatlevel && _length)
 		{
 			offsperpage = base->get_pagesize() / 4;
 			curobjblock = curblock / offsperpage;
@@ -829,7 +835,7 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 		curblock = 0;
 		curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
 
-		if(fatlevel)
+		if(fatlevel && _length)
 		{
 			offsperpage = base->get_pagesize() / 4;
 			curobjblock = 0;
@@ -927,7 +933,7 @@ bool V8Object::set_data(TStream* stream)
 		curblock = 0;
 		curlen = std::min(static_cast<uint64_t>(base->get_pagesize()), _length);
 
-		if(fatlevel)
+		if(fatlevel && _length)
 		{
 			offsperpage = base->get_pagesize() / 4;
 			curobjblock = 0;
@@ -1001,6 +1007,12 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 		curoffblock = _start - (curblock << 12);
 		curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE - curoffblock), _length);
 
+		if(_length == 0)
+		{
+			write_new_version();
+			return true;
+		}
+
 		curobjblock = curblock / 1023;
 		curoffobjblock = curblock - curobjblock * 1023;
 
@@ -1029,7 +1041,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 		curoffblock = _start - (curblock * base->get_pagesize());
 		curlen = std::min(static_cast<uint64_t>(base->get_pagesize() - curoffblock), _length);
 
-		if(fatlevel)
+		if(fatlevel && _length)
 		{
 			offsperpage = base->get_pagesize() / 4;
 			curobjblock = curblock / offsperpage;
-- 
2.43.0


From d49716ebe498228ce6eaf0aca2669a8d5f86adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 006/129] fix: changing the length of an object corrupted
 memory and its allocation table

---
 src/tool1cd/V8Object.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 7c42bb1..03d39ed 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1150,7 +1150,7 @@ void V8Object::set_len(uint64_t _len)
 		{
 			// Уменьшение длины объекта
 			objtab *ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-			for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+			while(cur_data_blocks-- > num_data_blocks)
 			{
 				i = cur_data_blocks % 1023;
 				base->set_block_as_free(ot->blocks[i]);
@@ -1168,9 +1168,7 @@ void V8Object::set_len(uint64_t _len)
 
 		len = _len;
 		if(numblocks > 0) {
-			std::copy(std::begin(b->blocks),
-					  std::begin(b->blocks) + (numblocks * 4),
-					  blocks.begin());
+			blocks.assign(b->blocks, b->blocks + numblocks);
 		}
 
 		write_new_version();
@@ -1178,7 +1176,7 @@ void V8Object::set_len(uint64_t _len)
 	else if(type == v8objtype::data838)
 	{
 		offsperpage = base->get_pagesize() / 4;
-		maxlen = base->get_pagesize() * offsperpage * (offsperpage - 6);
+		maxlen = (uint64_t)base->get_pagesize() * offsperpage * (offsperpage - 6);
 		if(_len > maxlen)
 		{
 			throw DetailedException("Попытка установки длины файла больше максимальной")
@@ -1222,7 +1220,7 @@ void V8Object::set_len(uint64_t _len)
 				bd->blocks[0] = bl;
 				numblocks = 1;
 			}
-			else bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+			else if(fatlevel && numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 
 			if(fatlevel)
 			{
@@ -1248,6 +1246,7 @@ void V8Object::set_len(uint64_t _len)
 					base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
 					bd->blocks[cur_data_blocks] = bl;
 				}
+				numblocks = num_data_blocks;
 			}
 		}
 		else if(num_data_blocks < cur_data_blocks)
@@ -1255,8 +1254,8 @@ void V8Object::set_len(uint64_t _len)
 			// Уменьшение длины объекта
 			if(fatlevel)
 			{
-				bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+				while(cur_data_blocks-- > num_data_blocks)
 				{
 					i = cur_data_blocks % offsperpage;
 					base->set_block_as_free(bb->blocks[i]);
@@ -1265,13 +1264,13 @@ void V8Object::set_len(uint64_t _len)
 					{
 						base->set_block_as_free(bd->blocks[--numblocks]);
 						bd->blocks[numblocks] = 0;
-						if(numblocks) bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
+						if(numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 					}
 				}
 			}
 			else
 			{
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				while(cur_data_blocks-- > num_data_blocks)
 				{
 					base->set_block_as_free(bd->blocks[cur_data_blocks]);
 					bd->blocks[cur_data_blocks] = 0;
@@ -1286,6 +1285,7 @@ void V8Object::set_len(uint64_t _len)
 					bl = bd->blocks[0];
 					memcpy(bd->blocks, bb->blocks, num_data_blocks * 4);
 					base->set_block_as_free(bl);
+					numblocks = num_data_blocks;
 				}
 				fatlevel = 0;
 				bd->fatlevel = 0;
@@ -1295,9 +1295,7 @@ void V8Object::set_len(uint64_t _len)
 
 		len = _len;
 		if(numblocks > 0) {
-			std::copy(std::begin(bd->blocks),
-					  std::begin(bd->blocks) + (numblocks * 4),
-					  blocks.begin());
+			blocks.assign(bd->blocks, bd->blocks + numblocks);
 		}
 
 		write_new_version();
-- 
2.43.0


From c04e122113c2034bdbc9231598816fdfa72704d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 007/129] fix: heap overflow when the list of free pages grows

---
 src/tool1cd/V8Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 03d39ed..bb21024 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1332,7 +1332,7 @@ void V8Object::set_block_as_free(uint32_t block_number)
 		real_numblocks++;
 		blocks.resize(real_numblocks);
 		std::copy(std::begin(ob->blocks),
-				  std::begin(ob->blocks) + (real_numblocks * 4),
+				  std::begin(ob->blocks) + real_numblocks,
 				  blocks.begin());
 	}
 
-- 
2.43.0


From a6863e4ad1d0682b5eb6b739782d8ecbc1da9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 008/129] fix: freeing a page wrote an 8.2 structure over the
 8.3.8 list of free pages

---
 src/tool1cd/V8Object.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index bb21024..c01bbd3 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1312,6 +1312,12 @@ void V8Object::set_block_as_free(uint32_t block_number)
 			.add_detail("Блок объекта", block);
 	}
 
+	if(type == v8objtype::free838)
+	{
+		// Структура файла свободных страниц 8.3.8 неизвестна: страница остаётся неиспользуемой
+		return;
+	}
+
 	uint32_t j = len >> 10; // length / 1024
 	int32_t i = len & 0x3ff; // length % 1024
 
-- 
2.43.0


From f4be5ebfd8a8557c89c8afa74493dc27b475a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 009/129] fix: deleting an object freed its header page once
 per allocation table

---
 src/tool1cd/Class_1CD.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5b05f56..9bccaaf 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1773,20 +1773,20 @@ bool T_1CD::delete_object(V8Object* ob)
 			.add_detail("Номер блока объекта", ob->get_block_number());
 	}
 
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		b = (objtab*)get_block(ob->get_block_by_index(i));
-		for(uint32_t j = 0; j < b->numblocks; j++) {
-			set_block_as_free(b->blocks[j]);
+	if(version < db_ver::ver8_3_8_0) {
+		for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
+			b = (objtab*)get_block(ob->get_block_by_index(i));
+			for(uint32_t j = 0; j < b->numblocks; j++) {
+				set_block_as_free(b->blocks[j]);
+			}
 		}
-	}
 
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_by_index(i));
+		for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
+			set_block_as_free(ob->get_block_by_index(i));
+		}
 	}
 
-	for(uint32_t i = 0; i < ob->get_numblocks(); i++) {
-		set_block_as_free(ob->get_block_number());
-	}
+	set_block_as_free(ob->get_block_number());
 
 	delete ob;
 
-- 
2.43.0


From f305d561f11cbbfaed503e73e380e3038400a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 010/129] fix: writing after a read that reached the end of the
 stream lost the data

---
 src/tool1cd/SystemClasses/TStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 1499856..8ff1c5a 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -208,6 +208,7 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 
 int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
 {
+	_stream->clear();
 	_stream->seekp(GetPosition(), std::ios_base::beg);
 	_stream->write((char*)Buffer, Count);
 	_stream->flush();
-- 
2.43.0


From c99260128ef71435123059fbb025530e90019384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 011/129] fix: closing a file stream twice dereferenced a null
 pointer

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 790071d..02afb14 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -76,6 +76,9 @@ void TFileStream::Reopen()
 
 void TFileStream::Close()
 {
+	if (!_stream) {
+		return;
+	}
 	_stream->close();
 	_stream.reset();
 }
-- 
2.43.0


From 93c89ce7fca42497134c51a7aa4fc82f7d9e9dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 012/129] fix: growing an empty 8.3.8 object past one level
 misplaced its allocation table

---
 src/tool1cd/V8Object.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index c01bbd3..8df719e 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1212,13 +1212,16 @@ void V8Object::set_len(uint64_t _len)
 			// Увеличение длины объекта
 			if(fatlevel == 0 && newfatlevel)
 			{
-				bl = base->get_free_block();
-				bb = (objtab838*)base->get_block_for_write(bl, false);
-				memcpy(bb->blocks, bd->blocks, numblocks * 4);
+				if(numblocks)
+				{
+					bl = base->get_free_block();
+					bb = (objtab838*)base->get_block_for_write(bl, false);
+					memcpy(bb->blocks, bd->blocks, numblocks * 4);
+					bd->blocks[0] = bl;
+					numblocks = 1;
+				}
 				fatlevel = newfatlevel;
 				bd->fatlevel = newfatlevel;
-				bd->blocks[0] = bl;
-				numblocks = 1;
 			}
 			else if(fatlevel && numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 
-- 
2.43.0


From 08c5c70497daa133ea0e1986f6343ffdba7605c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 013/129] fix: toXML escaped only the first occurrence of every
 special character

---
 src/tool1cd/Common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 140261a..a14feab 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -152,11 +152,11 @@ string hexstring(TStream *str)
 std::string toXML(const std::string &in)
 {
 	string result(in);
-	result = StringReplace(result, "&", "&amp;");
-	result = StringReplace(result, "<", "&lt;");
-	result = StringReplace(result, ">", "&gt;");
-	result = StringReplace(result, "'", "&apos;");
-	result = StringReplace(result, "\"", "&quot;");
+	result = StringReplace(result, "&", "&amp;", rfReplaceAll);
+	result = StringReplace(result, "<", "&lt;", rfReplaceAll);
+	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
+	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
+	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
 	return result;
 }
 
-- 
2.43.0


From 0333ca60e5624e9d762eedfe51af170fc5668e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 014/129] fix: the hidden version field was left out of the
 record layout

---
 src/tool1cd/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ae78734..16be913 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -298,6 +298,7 @@ void Table::init(int32_t block_descr)
 		fld->set_name("VERSION");
 		fld->set_type_manager(FieldType::Version8());
 		fields.push_back(fld);
+		num_fields++;
 	}
 
 	t = t->get_next();
-- 
2.43.0


From c49162906f78354ed938a658d6c888398e413b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 015/129] fix: records beyond 4 GiB of table data were read
 from a wrong position

---
 src/tool1cd/Table.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 16be913..31f6a14 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -443,7 +443,7 @@ void Table::init(int32_t block_descr)
 
 	if(file_data)
 	{
-		if(phys_numrecords * recordlen != file_data->get_len())
+		if((uint64_t)phys_numrecords * recordlen != file_data->get_len())
 		{
 			throw DetailedException("Длина таблицы не кратна длине записи.")
 				.add_detail("Блок", to_hex_string(block_descr))
@@ -639,7 +639,7 @@ uint32_t Table::get_added_numrecords() const
 //---------------------------------------------------------------------------
 void Table::get_record(uint32_t phys_numrecord, char *buf)
 {
-	file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -649,7 +649,7 @@ TableRecord * Table::get_record(uint32_t phys_numrecord) const
 	tr_syn->BeginWrite();
 	#endif
 	char *buf = new char[recordlen];
-	char* b = file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	char* b = file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 	#ifndef getcfname
 	tr_syn->EndWrite();
 	#endif
@@ -1047,7 +1047,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 //---------------------------------------------------------------------------
 uint64_t Table::get_file_offset(uint32_t phys_numrecord)
 {
-	uint32_t _offset = phys_numrecord * recordlen;
+	uint64_t _offset = (uint64_t)phys_numrecord * recordlen;
 	return file_data->get_fileoffset(_offset);
 }
 
-- 
2.43.0


From 99a9f0bd2bb3a5dc92f2a984187ee1cc589c548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 016/129] fix: blob values beyond 4 GiB of the blob file were
 read from a wrong position

---
 src/tool1cd/Table.cpp    | 8 ++++----
 src/tool1cd/V8Object.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 31f6a14..920b6c3 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -732,7 +732,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	uint32_t _curblock;
 	char* _curb;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -764,7 +764,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -805,7 +805,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	char* _curb;
 	char* _buf;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t readed;
 
 	if(!_startblock && _length)
@@ -837,7 +837,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 8df719e..1e8e791 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1457,7 +1457,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 {
 	uint32_t _curblock;
 	char* _curb;
-	uint32_t _numblock;
+	uint64_t _numblock;
 	uint32_t startlen;
 
 	if(rewrite) _str->SetSize(0);
@@ -1488,7 +1488,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
-		get_data(_curb, _curblock << 8, 0x100);
+		get_data(_curb, (uint64_t)_curblock << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
 		if(_curlen > 0xfa)
-- 
2.43.0


From 0fdabd1ecebb71d012dbc4dd9d1e5105f6a903dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 017/129] fix: binary values were presented with trailing NUL
 characters

---
 src/tool1cd/FieldType.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index be9ac05..b0eb6b5 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -40,7 +40,7 @@ namespace Convert {
 string from_binary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	result.resize(length * 2);
 
 	for(int32_t i = 0; i < length; i++) {
 		char sym = '0' + (fr[i] >> 4);
@@ -55,17 +55,18 @@ string from_binary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[length << 1] = 0;
-
 	return result;
 }
 
 string from_varbinary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	int32_t m = *(uint16_t*)fr; // длина + смещение
+	if(m > length) {
+		m = length;
+	}
+	result.resize(m * 2);
 
-	int32_t m = *(int16_t*)fr; // длина + смещение
 	for(int32_t i = 0; i < m; i++) {
 		char sym = '0' + (fr[i + 2] >> 4);
 		if(sym > '9') {
@@ -79,8 +80,6 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[m << 1] = 0;
-
 	return result;
 }
 
-- 
2.43.0


From 776b3169d92c7484feb47a71cc6ebf473904f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 018/129] fix: a string with a damaged length was read past the
 end of its field

---
 src/tool1cd/FieldType.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index b0eb6b5..df8a03c 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -681,11 +681,12 @@ string CommonFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + (length * sizeof(WCHART))));
 		}
 		case type_fields::tf_varchar: {
-			int16_t length = *(int16_t *) fr;
+			uint16_t length = *(uint16_t *) fr;
 			fr += sizeof(length);
-			auto full_size = length * sizeof(WCHART);
-			if (full_size > get_size()) {
-				full_size = get_size();
+			size_t full_size = length * sizeof(WCHART);
+			size_t max_size = get_size() - sizeof(length);
+			if (full_size > max_size) {
+				full_size = max_size;
 			}
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + full_size));
 		}
-- 
2.43.0


From 7af92b1c4dae8816e7ff25e2e27f2a441cddf45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 019/129] fix: reading a date read three bytes past its field

---
 src/tool1cd/BinaryDecimalNumber.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 91ff9fe..81d20e2 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -63,7 +63,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 		builder.push2(first_byte);
 	}
 	++byte_data;
-	int i = 1;
+	int i = has_sign_flag ? 1 : 2;
 	while (i < length) {
 		if (i + 1 < length) {
 			builder.push2(*byte_data);
@@ -210,7 +210,7 @@ BinaryDecimalNumber::BinaryDecimalNumber()
 }
 
 BinaryDecimalDate::BinaryDecimalDate(const void *raw_data)
-	: BinaryDecimalNumber(raw_data, 19, 0, false)
+	: BinaryDecimalNumber(raw_data, 14, 0, false)
 {}
 
 BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std::string &format)
-- 
2.43.0


From 87270f70dfcfaa31c804033dab73dcef669144f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 020/129] fix: base64 lines were separated by CR NUL instead of
 CR LF

---
 src/tool1cd/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index 8e92473..688ccbb 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -50,7 +50,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	{
 		if(blocksout >= linesize/4 && linesize)
 		{
-			outfile->Write(L"\r\n", 4);
+			outfile->Write(u"\r\n", 4);
 			blocksout = 0;
 		}
 		blocksout++;
@@ -65,7 +65,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	len = infile->GetSize() - infile->GetPosition();
 	if(len > 0)
 	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(L"\r\n", 4);
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(u"\r\n", 4);
 		in[1] = 0;
 		in[2] = 0;
 		infile->Read(in, len);
-- 
2.43.0


From 19b3848d069773d5f4c39133da2993b6219fb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 021/129] fix: the XML export of a text value read past the end
 of its buffer

---
 src/tool1cd/FieldType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index df8a03c..25a45bc 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -751,7 +751,7 @@ string CommonFieldType::get_XML_presentation(const char *rec, const Table *paren
 			uint32_t *retyped = (uint32_t*)fr;
 			out = new TMemoryStream();
 			parent->readBlob(out, retyped[0], retyped[1]);
-			string s = toXML(string(static_cast<char*>(out->GetMemory()), 0, out->GetSize()));
+			string s = toXML(string(static_cast<char*>(out->GetMemory()), out->GetSize()));
 			delete out;
 			return s;
 		}
-- 
2.43.0


From cd57f3814b60ebda5bdb22021c7df49e1a871ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 022/129] fix: the number of image fields was not initialised
 before it was counted

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 920b6c3..bd66d2e 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -915,7 +915,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		curindex= *primary;
 	}
 
-	int image_count; // количество полей с типом image
+	int image_count = 0; // количество полей с типом image
 	for (auto field : fields) {
 		f.WriteString(fpart1);
 		f.WriteString(field->get_name());
-- 
2.43.0


From 4dc1709072a8c1fd3275adb276460396b96d3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 023/129] fix: blobs exported to files were saved under nested,
 colliding or empty names

---
 src/tool1cd/Table.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index bd66d2e..238fca3 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <map>
 #include <string>
 #include <boost/filesystem.hpp>
 
@@ -880,7 +881,8 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	uint32_t j, numr, nr;
 	bool canwriteblob = false;
 	Index* curindex = nullptr;
-	int32_t repeat_count; // количество повторов имени записи подряд (для случая, если индекс не уникальный)
+	int32_t repeat_count; // количество предыдущих записей с тем же именем (для случая, если индекс не уникальный)
+	std::map<string, int32_t> recname_counts;
 
 	char UnicodeHeader[3] = {'\xef', '\xbb', '\xbf'}; // BOM UTF-8
 	string part1 = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!--Файл сформирован программой Tool_1CD-->\r\n<Table Name=\"";
@@ -958,12 +960,8 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		std::shared_ptr<TableRecord> rec (get_record(nr));
 		if (image_count) {
 			std::string filename = get_file_name_for_record(rec.get());
-			if (EqualIC(filename, recname)) {
-				repeat_count++;
-			} else {
-				recname = filename;
-				repeat_count = 0;
-			}
+			recname = filename;
+			repeat_count = recname_counts[LowerCase(filename)]++;
 		}
 		for (auto field : fields) {
 			string outputvalue;
@@ -995,7 +993,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 				if(canwriteblob)
 				{
 					outputvalue = recname;
-					if(image_count > 1)
+					if(image_count > 1 || outputvalue.empty())
 					{
 						if (outputvalue.size()) {
 							outputvalue += "_";
@@ -1005,11 +1003,11 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 					if(repeat_count)
 					{
 						outputvalue += "_";
-						outputvalue += repeat_count + 1;
+						outputvalue += to_string(repeat_count + 1);
 					}
 
-					dir /= outputvalue;
-					if(!field->save_blob_to_file(rec.get(), dir.string(), unpack)) {
+					boost::filesystem::path blob_path = dir / outputvalue;
+					if(!field->save_blob_to_file(rec.get(), blob_path.string(), unpack)) {
 						outputvalue = "{NULL}";
 						output_is_null = true;
 					}
-- 
2.43.0


From 81685dcbc14465b8136f88f1c62e47b294c9ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 024/129] fix: exporting blobs to files failed when an index
 field was NULL

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 238fca3..72e7cd1 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2384,7 +2384,7 @@ std::string Table::get_file_name_for_record(const TableRecord *rec) const
 				s += "_";
 			}
 			Field* tmp_field = record.field;
-			std::string tmp_str = rec->get_string(tmp_field);
+			std::string tmp_str = rec->is_null_value(tmp_field) ? std::string("{NULL}") : rec->get_string(tmp_field);
 
 			s += tmp_str;
 		}
-- 
2.43.0


From c3bd51450c48e0bf9cbf32ef6f73b850580f4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 025/129] fix: exporting all tables left out the records of
 tables without a primary index

---
 src/ctool1cd/App.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2dde0f7..204fd08 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -81,9 +81,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 	for (int j = 0; j < base1CD->get_numtables(); j++) {
 		tbl = base1CD->get_table(j);
 
-		if (!tbl->get_num_indexes()) {
-			tbl->fill_records_index();
-		}
+		tbl->fill_records_index();
 
 		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
 
-- 
2.43.0


From 779129a741c65ada4d8dd266e74e7edc5aa0e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 026/129] fix: copying from the end of a stream wrote zeros

---
 src/tool1cd/SystemClasses/TStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 8ff1c5a..ff169b9 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -109,6 +109,9 @@ int64_t TStream::CopyFrom(TStream *Source, const int64_t Count)
 	}
 	std::vector<uint8_t> _data;
 	auto resultCount = Source->Read(_data, Count);
+	if (resultCount <= 0) {
+		return 0;
+	}
 	return Write(_data, resultCount);
 }
 
-- 
2.43.0


From 779b6aa60bd11d55806318789402fe6706645be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 027/129] fix: a file that cannot be opened was treated as an
 empty file

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 02afb14..cbe89c2 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include "TFileStream.hpp"
+#include "Exception.hpp"
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/fstream.hpp>
 
@@ -34,6 +35,9 @@ TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
 		mode |= std::ios::trunc;
 	}
 	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	if (!_stream->is_open()) {
+		throw Exception(std::string("Не удалось открыть файл ") + filename);
+	}
 	reopen(_stream);
 	m_position = 0;
 }
@@ -46,6 +50,9 @@ TFileStream::TFileStream(const boost::filesystem::path &path, const uint16_t fil
 		mode |= std::ios::trunc;
 	}
 	_stream = std::make_shared<boost::filesystem::fstream>(path, mode);
+	if (!_stream->is_open()) {
+		throw Exception(std::string("Не удалось открыть файл ") + filename);
+	}
 	reopen(_stream);
 	m_position = 0;
 }
-- 
2.43.0


From fa570424f485a4bcb624c188787b97691931848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 028/129] fix: files opened for reading were opened for writing

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 19 ++++++++++++++-----
 src/tool1cd/SystemClasses/TFileStream.hpp |  1 +
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index cbe89c2..710fd7a 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -28,9 +28,12 @@ namespace System {
 namespace Classes {
 
 TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
-	: TWrapperStream(), filename(FileName)
+	: TWrapperStream(), filename(FileName), read_only((fileMode & 0x000F) == fmOpenRead)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
+	std::ios_base::openmode mode = std::ios::binary | std::ios::in;
+	if (!read_only) {
+		mode |= std::ios::out;
+	}
 	if (fileMode == fmCreate) {
 		mode |= std::ios::trunc;
 	}
@@ -43,9 +46,12 @@ TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
 }
 
 TFileStream::TFileStream(const boost::filesystem::path &path, const uint16_t fileMode)
-	: TWrapperStream(), filename(path.string())
+	: TWrapperStream(), filename(path.string()), read_only((fileMode & 0x000F) == fmOpenRead)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
+	std::ios_base::openmode mode = std::ios::binary | std::ios::in;
+	if (!read_only) {
+		mode |= std::ios::out;
+	}
 	if (fileMode == fmCreate) {
 		mode |= std::ios::trunc;
 	}
@@ -75,7 +81,10 @@ void TFileStream::Reopen()
 			return;
 		}
 	}
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
+	std::ios_base::openmode mode = std::ios::binary | std::ios::in;
+	if (!read_only) {
+		mode |= std::ios::out;
+	}
 	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
 	reopen(_stream);
 }
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index d018f3f..f5086d6 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -57,6 +57,7 @@ public:
 
 protected:
 	std::string filename;
+	bool read_only;
 	std::shared_ptr<std::fstream> _stream;
 };
 
-- 
2.43.0


From d34140acefb9bd08451fd80b6b2f2bb9b4d12b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 029/129] fix: a base that cannot be opened aborted the program

---
 src/ctool1cd/App.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 204fd08..2a82d02 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -593,7 +593,17 @@ int App::Run()
 		return CTOOL_1CD_FILE_NOT_EXISTS;
 	}
 
-	base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	try {
+		base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	}
+	catch (DetailedException &ex) {
+		ex.show();
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
+	catch (std::exception &ex) {
+		msreg_g.AddError(ex.what());
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
 
 	if (base1CD->is_open()) {
 		msreg_g.AddMessage ("База данных 1CD открыта", MessageState::Succesfull)
-- 
2.43.0


From 4f22f0c12ae732bc6d3fa613cf878afc86254e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 030/129] fix: the exit code did not report errors

---
 src/tool1cd/Messenger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b104b9b..db27ef0 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -44,6 +44,10 @@ void Messenger::Status(const string &message)
 //---------------------------------------------------------------------------
 void Messenger::AddDetailedMessage(const string &message, const MessageState mstate, const TStringList *param)
 {
+	if (mstate == MessageState::Error) {
+		has_error = true;
+	}
+
 	if (mstate < minimal_state) {
 		return;
 	}
-- 
2.43.0


From a50f69e1d8d93449575fb54e306c9e8077ce694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 031/129] fix: the key noverbose had no effect

---
 src/tool1cd/Messenger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index db27ef0..d6711b8 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -52,6 +52,10 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 		return;
 	}
 
+	if (noverbose && logfile.empty()) {
+		return;
+	}
+
 	shared_ptr<ostream> output (&cerr, [](...){} );
 
 	if (!logfile.empty()) {
-- 
2.43.0


From 6e29ce411af4f57ad6a4491831fd369ff18bbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 032/129] fix: endless loop on an argument with a trailing
 quote

---
 src/ctool1cd/ParseCommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 7b5429b..6f656bc 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -165,8 +165,8 @@ std::string dequote(const std::string &str)
 	if (result.front() == '\"' && result.back() == '\"') {
 		result = result.substr(1, result.size() - 2);
 	}
-	while (result.back() == '\"') {
-		result = result.substr(0, str.size() - 1);
+	while (!result.empty() && result.back() == '\"') {
+		result = result.substr(0, result.size() - 1);
 	}
 	return result;
 }
-- 
2.43.0


From 799201c4141fd227eb8db37ad4ab08e86126eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 033/129] fix: an empty command line argument was read out of
 bounds

---
 src/ctool1cd/ParseCommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 6f656bc..55b644b 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -181,7 +181,7 @@ CommandParse::CommandParse(char **szArglist, int nArgs)
 	for (int i = 1; i < nArgs; i++)
 	{
 		std::string param = szArglist[i];
-		if (param.front() == '-') {
+		if (!param.empty() && param.front() == '-') {
 			param = LowerCase(param.substr(1, param.size() - 1));
 			int j;
 			for (j = 0; j < numdef; j++) {
-- 
2.43.0


From 78bfe895339d684225afb8d58888115426526661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 034/129] fix: importing a table modified a base opened for
 reading only

---
 src/tool1cd/Table.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 72e7cd1..eedc1f2 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1161,6 +1161,12 @@ void Table::export_table(const boost::filesystem::path &path) const
 //---------------------------------------------------------------------------
 void Table::import_table(const boost::filesystem::path &path)
 {
+	if(base->get_readonly())
+	{
+		throw DetailedException("Попытка импорта таблицы в режиме \"Только чтение\"")
+			.add_detail("Таблица", name);
+	}
+
 	boost::filesystem::path dir = path / name;
 
 	if(!directory_exists(dir)) {
-- 
2.43.0


From 254f77589a9a4590faa35348d301a529774c7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 035/129] fix: concurrent runs deleted each other's temporary
 files

---
 src/tool1cd/TempStream.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/TempStream.cpp b/src/tool1cd/TempStream.cpp
index d9bd472..96a2e92 100755
--- a/src/tool1cd/TempStream.cpp
+++ b/src/tool1cd/TempStream.cpp
@@ -33,10 +33,8 @@ TTempStreamStaticInit TempStreamStaticInit;
 
 static void DelayedInitTempPath()
 {
-	TTempStream::tempcat = boost::filesystem::temp_directory_path() / "t1cd";
-	if (boost::filesystem::exists(TTempStream::tempcat)) {
-		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
+	// у каждого процесса свой каталог: каталог другого работающего экземпляра удалять нельзя
+	TTempStream::tempcat = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%-%%%%");
 	boost::filesystem::create_directory(TTempStream::tempcat);
 }
 
-- 
2.43.0


From bc7b984bca4429b1955206b0cd9a378f5b05c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 036/129] fix: the last digit of the first version of a range
 was dropped

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2a82d02..2627082 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -463,7 +463,7 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 				.substr(splitter + 1, version_number_param.size() - splitter - 1)
 				, 0);
 		begin_version = ToIntDef(version_number_param
-				.substr(0, splitter - 1)
+				.substr(0, splitter)
 				, 0);
 	} else {
 		begin_version = ToIntDef(version_number_param, 0);
-- 
2.43.0


From d0bc826f8c176723c24672e5f5f90117bfdd2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 037/129] fix: ToIntDef threw an exception on a number out of
 range

---
 src/tool1cd/SystemClasses/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index a8c8272..9ca704e 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -187,6 +187,8 @@ int ToIntDef(const std::string &s, int default_value)
 		return stoi(s);
 	} catch (const invalid_argument &) {
 		return default_value;
+	} catch (const out_of_range &) {
+		return default_value;
 	}
 }
 
-- 
2.43.0


From 610a74f5b1ededce0f848ecc1f2fdd80bcde9135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 038/129] fix: division by zero on a damaged page size

---
 src/tool1cd/Class_1CD.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 9bccaaf..76086ba 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -300,6 +300,11 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		version = db_ver::ver8_3_8_0;
 		readonly = !_monopoly;
 		pagesize = cont->pagesize;
+		if(pagesize < DEFAULT_PAGE_SIZE || (pagesize & (pagesize - 1)) != 0)
+		{
+			throw DetailedException("Недопустимый размер страницы базы")
+					.add_detail("Длина страницы", to_hex_string(pagesize));
+		}
 	}
 	else
 	{
-- 
2.43.0


From 7dc9e1b9523c36d96591db4da31781568448b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 039/129] fix: importing a table into an 8.3.8 base overwrote
 the length of its objects

---
 src/tool1cd/Class_1CD.cpp | 17 ++++-------------
 src/tool1cd/Table.cpp     | 18 ++++--------------
 src/tool1cd/V8Object.cpp  | 14 ++++++++++++++
 src/tool1cd/V8Object.h    |  1 +
 4 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 76086ba..2286624 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1213,7 +1213,6 @@ bool T_1CD::create_table(const string &path)
 	uint32_t i;
 	int32_t j;
 	export_import_table_root* root;
-	v8ob* ob;
 	V8Object* descr_table;
 	V8Object* file_data;
 	V8Object* file_blob;
@@ -1283,9 +1282,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_data = new V8Object(this);
 		file_data->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_data->get_block_number(), true);
-		ob->version.version_1 = root->data_version_1;
-		ob->version.version_2 = root->data_version_2;
+		file_data->set_version(root->data_version_1, root->data_version_2);
 		delete f;
 	}
 
@@ -1303,9 +1300,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_blob = new V8Object(this);
 		file_blob->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_blob->get_block_number(), true);
-		ob->version.version_1 = root->blob_version_1;
-		ob->version.version_2 = root->blob_version_2;
+		file_blob->set_version(root->blob_version_1, root->blob_version_2);
 		delete f;
 	}
 
@@ -1323,9 +1318,7 @@ bool T_1CD::create_table(const string &path)
 		}
 		file_index = new V8Object(this);
 		file_index->set_data(f);
-		ob = (v8ob*)get_block_for_write(file_index->get_block_number(), true);
-		ob->version.version_1 = root->index_version_1;
-		ob->version.version_2 = root->index_version_2;
+		file_index->set_version(root->index_version_1, root->index_version_2);
 		delete f;
 	}
 
@@ -1343,9 +1336,7 @@ bool T_1CD::create_table(const string &path)
 		if(fopen)
 		{
 			descr_table = new V8Object(this);
-			ob = (v8ob*)get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root->descr_version_1;
-			ob->version.version_2 = root->descr_version_2;
+			descr_table->set_version(root->descr_version_1, root->descr_version_2);
 
 			string descr = from_unicode_stream(*f);
 			delete f;
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index eedc1f2..9957931 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1175,8 +1175,6 @@ void Table::import_table(const boost::filesystem::path &path)
 
 	TFileStream* f;
 	bool fopen;
-	v8ob* ob;
-
 	bool descr_changed = false;
 
 	try
@@ -1213,9 +1211,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_data->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_data->get_block_number(), true);
-			ob->version.version_1 = root.data_version_1;
-			ob->version.version_2 = root.data_version_2;
+			file_data->set_version(root.data_version_1, root.data_version_2);
 			delete f;
 		}
 	}
@@ -1240,9 +1236,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_blob->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_blob->get_block_number(), true);
-			ob->version.version_1 = root.blob_version_1;
-			ob->version.version_2 = root.blob_version_2;
+			file_blob->set_version(root.blob_version_1, root.blob_version_2);
 			delete f;
 		}
 	}
@@ -1267,9 +1261,7 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_index->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_index->get_block_number(), true);
-			ob->version.version_1 = root.index_version_1;
-			ob->version.version_2 = root.index_version_2;
+			file_index->set_version(root.index_version_1, root.index_version_2);
 			delete f;
 		}
 	}
@@ -1291,9 +1283,7 @@ void Table::import_table(const boost::filesystem::path &path)
 		if(fopen)
 		{
 			if(!descr_table) descr_table = new V8Object(base); // вообще, если descr_table == nullptr, то это огромная ошибка!
-			ob = (v8ob*)base->get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root.descr_version_1;
-			ob->version.version_2 = root.descr_version_2;
+			descr_table->set_version(root.descr_version_1, root.descr_version_2);
 
 			auto buf_size = f->GetSize();
 			char *buf = new char[buf_size];
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 1e8e791..50e72ed 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1422,6 +1422,20 @@ void V8Object::write_new_version()
 	new_version_recorded = true;
 }
 
+//---------------------------------------------------------------------------
+void V8Object::set_version(uint32_t version_1, uint32_t version_2)
+{
+	_version_rec new_ver;
+	int32_t veroffset = type == v8objtype::data80 || type == v8objtype::free80 ? 12 : 4;
+
+	new_ver.version_1 = version_1;
+	new_ver.version_2 = version_2;
+	memcpy(base->get_block_for_write(block, true) + veroffset, &new_ver, sizeof(new_ver));
+	version.version_1 = version_1;
+	version.version_2 = version_2;
+	new_version_recorded = true;
+}
+
 _version V8Object::get_current_version() const
 {
 	return version;
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index f733bb7..a4b0d3c 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -121,6 +121,7 @@ public:
 	void get_version_rec_and_increase(_version* ver); // получает версию очередной записи и увеличивает сохраненную версию объекта
 	void get_version(_version* ver); // получает сохраненную версию объекта
 	void write_new_version(); // записывает новую версию объекта
+	void set_version(uint32_t version_1, uint32_t version_2); // записывает заданную версию объекта
 	_version get_current_version() const;
 
 	V8Object* get_next();
-- 
2.43.0


From 78f0fe3e3f076c10751ed6705e3ac4a3d024871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 040/129] fix: importing a table with missing files imported it
 partially

---
 src/tool1cd/Table.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 9957931..0a24181 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1188,8 +1188,28 @@ void Table::import_table(const boost::filesystem::path &path)
 			.add_detail("Файл", (dir / "root").string());
 	}
 	export_import_table_root root;
-	f->Read(&root, sizeof(export_import_table_root));
+	auto root_size = f->Read(&root, sizeof(export_import_table_root));
 	delete f;
+	if(root_size != sizeof(export_import_table_root))
+	{
+		throw DetailedException("Ошибка чтения файла импорта таблицы root")
+			.add_detail("Таблица", name)
+			.add_detail("Файл", (dir / "root").string());
+	}
+
+	// все файлы проверяются до начала записи, чтобы не оставить таблицу импортированной частично
+	const std::pair<bool, const char*> import_files[] = {
+		{root.has_data, "data"}, {root.has_blob, "blob"}, {root.has_index, "index"}
+	};
+	for(auto &import_file : import_files)
+	{
+		if(import_file.first && !boost::filesystem::is_regular_file(dir / import_file.second))
+		{
+			throw DetailedException("Отсутствует файл импорта таблицы")
+				.add_detail("Таблица", name)
+				.add_detail("Файл", (dir / import_file.second).string());
+		}
+	}
 
 	if(root.has_data) {
 		fopen = false;
-- 
2.43.0


From da0089260de3331c206c24ec2bb7ef2bd8111863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 041/129] fix: sizes of table files from 2 GiB on were written
 as negative numbers

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2627082..813267f 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -46,7 +46,7 @@ const string DATABASE_CONFIG_DEFAULT_NAME() {
 	return string("dbcf") + CF_STR;
 }
 
-static int object_size(/*const */V8Object *file)
+static uint64_t object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
 		return 0;
-- 
2.43.0


From c1018436c5d2a875b31395f30209f78d11a3ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 042/129] fix: file names of exported blobs collided and were
 written to XML unescaped

---
 src/tool1cd/Table.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 0a24181..ac69fca 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -19,7 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
-#include <map>
+#include <set>
 #include <string>
 #include <boost/filesystem.hpp>
 
@@ -881,8 +881,6 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	uint32_t j, numr, nr;
 	bool canwriteblob = false;
 	Index* curindex = nullptr;
-	int32_t repeat_count; // количество предыдущих записей с тем же именем (для случая, если индекс не уникальный)
-	std::map<string, int32_t> recname_counts;
 
 	char UnicodeHeader[3] = {'\xef', '\xbb', '\xbf'}; // BOM UTF-8
 	string part1 = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!--Файл сформирован программой Tool_1CD-->\r\n<Table Name=\"";
@@ -944,7 +942,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	msreg_g.Status(status);
 
 	recname = "";
-	repeat_count = 0;
+	std::set<string> used_names; // уже занятые имена файлов
 	bool dircreated = false;
 	boost::filesystem::path dir(_filename + ".blob");
 
@@ -961,7 +959,6 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		if (image_count) {
 			std::string filename = get_file_name_for_record(rec.get());
 			recname = filename;
-			repeat_count = recname_counts[LowerCase(filename)]++;
 		}
 		for (auto field : fields) {
 			string outputvalue;
@@ -1000,16 +997,19 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						}
 						outputvalue += field->get_name();
 					}
-					if(repeat_count)
+					// если индекс не уникальный, имя могло уже встречаться
+					string base_name = outputvalue;
+					for(int32_t n = 2; !used_names.insert(LowerCase(outputvalue)).second; n++)
 					{
-						outputvalue += "_";
-						outputvalue += to_string(repeat_count + 1);
+						outputvalue = base_name + "_" + to_string(n);
 					}
 
 					boost::filesystem::path blob_path = dir / outputvalue;
 					if(!field->save_blob_to_file(rec.get(), blob_path.string(), unpack)) {
 						outputvalue = "{NULL}";
 						output_is_null = true;
+					} else {
+						outputvalue = toXML(outputvalue);
 					}
 				}
 				else outputvalue = "{ERROR}";
-- 
2.43.0


From 2ed114f3c5c69ea896c4357aa09b001cdbd60927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 043/129] fix: exporting blobs to files failed on path
 separators in index values

---
 src/tool1cd/Table.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ac69fca..69a91f5 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2406,6 +2406,16 @@ std::string Table::get_file_name_for_record(const TableRecord *rec) const
 		}
 	}
 
+	// значение индекса может содержать символы, недопустимые в имени файла
+	for(auto& c : s) {
+		if(c == '/' || c == '\\' || (c >= 0 && c < ' ')) {
+			c = '_';
+		}
+	}
+	if(s == "." || s == "..") {
+		s += "_";
+	}
+
 	return s;
 }
 
-- 
2.43.0


From 11e825233ccc76b8326142257d0a1c901d74c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 044/129] fix: heap overflow unpacking users data with a
 damaged mask length

---
 src/tool1cd/Field.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 6ba11ab..7a69b88 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -280,7 +280,10 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			blob_stream->Seek(0, soFromBeginning);
 			blob_stream->Read(_bb, stream_size);
 
-			size_t xor_mask_size = _bb[0];
+			size_t xor_mask_size = (uint8_t)_bb[0];
+			if(xor_mask_size + 1 > stream_size) {
+				xor_mask_size = stream_size - 1;
+			}
 			char *_xor_mask = &_bb[1];
 			char *_xor_buf = &_xor_mask[xor_mask_size];
 			size_t data_size = stream_size - xor_mask_size - 1;
-- 
2.43.0


From d1a8486f7b30ca1aeddbd4b9a5d8d1eb600d3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 045/129] fix: reading a block header of a container ran past
 its end

---
 src/tool1cd/cfapi/APIcfBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/APIcfBase.cpp b/src/tool1cd/cfapi/APIcfBase.cpp
index b18a80c..74b901b 100755
--- a/src/tool1cd/cfapi/APIcfBase.cpp
+++ b/src/tool1cd/cfapi/APIcfBase.cpp
@@ -33,7 +33,7 @@ unsigned WindowsTickToUnixSeconds(long long windowsTicks)
 
 int32_t stBlockHeader::get_data_size() const {
 	string hex("0x");
-	hex.append(data_size_hex);
+	hex.append(data_size_hex, sizeof(data_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -49,7 +49,7 @@ void stBlockHeader::set_data_size(int32_t value) {
 
 int32_t stBlockHeader::get_page_size() const {
 	string hex("0x");
-	hex.append(page_size_hex);
+	hex.append(page_size_hex, sizeof(page_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -65,7 +65,7 @@ void stBlockHeader::set_page_size(int32_t value) {
 
 int32_t stBlockHeader::get_next_page_addr() const {
 	string hex("0x");
-	hex.append(next_page_addr_hex);
+	hex.append(next_page_addr_hex, sizeof(next_page_addr_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
-- 
2.43.0


From 9988d1be6debab5435279e178fab2a22b5a5c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 046/129] fix: an empty blob value could not be read without a
 blob file

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 69a91f5..7a3a9ca 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -789,7 +789,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 				.with("Прочитано", _str->GetSize() - startlen);
 		}
 	}
-	else
+	else if(_startblock || _length)
 	{
 		throw DetailedException("Попытка чтения Blob-поля при отстутствующем файле Blob")
 			.add_detail("Таблица", name)
-- 
2.43.0


From 2103cff54403c81eba1c171bb94986ccde9c73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 047/129] fix: a damaged root object was read past its end when
 opening a base

---
 src/tool1cd/Class_1CD.cpp | 46 ++++++++++++++++++++++++++-------------
 src/tool1cd/Class_1CD.h   |  1 +
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 2286624..f64414b 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -26,6 +26,8 @@
 #include <boost/uuid/uuid_generators.hpp>
 #include <boost/uuid/uuid_io.hpp>
 #include <memory>
+#include <cstddef>
+#include <cstring>
 
 #include "UZLib.h"
 #include "Class_1CD.h"
@@ -232,6 +234,30 @@ T_1CD::T_1CD(const boost::filesystem::path &_filename, MessageRegistrator *mess,
 	open(_filename, _monopoly);
 }
 
+//---------------------------------------------------------------------------
+// Проверка того, что список таблиц умещается в данных корневого объекта
+template<typename Root>
+static void check_root(const Root *root, uint64_t size)
+{
+	constexpr uint64_t header_size = offsetof(Root, blocks);
+	if(size < header_size
+		|| root->numblocks < 0
+		|| (size - header_size) / sizeof(uint32_t) < static_cast<uint64_t>(root->numblocks))
+	{
+		throw DetailedException("Данные корневого объекта базы повреждены")
+				.add_detail("Длина корневого объекта", size);
+	}
+}
+
+//---------------------------------------------------------------------------
+template<size_t N>
+void T_1CD::set_locale(const char (&lang)[N])
+{
+	const string lang_str(lang, strnlen(lang, N));
+	locale = new char[lang_str.size() + 1];
+	memcpy(locale, lang_str.c_str(), lang_str.size() + 1);
+}
+
 //---------------------------------------------------------------------------
 void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 {
@@ -339,14 +365,8 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 	if(version == db_ver::ver8_0_3_0 || version == db_ver::ver8_0_5_0)
 	{
 		root80 = (root_80*)root_object->get_data();
-
-		locale = new char[strlen(root80->lang) + 1];
-
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root80->lang) + 1, root80->lang);
-#else
-		strcpy(locale, root80->lang);
-#endif
+		check_root(root80, root_object->get_len());
+		set_locale(root80->lang);
 
 		num_tables = root80->numblocks;
 		table_blocks = &(root80->blocks[0]);
@@ -360,18 +380,14 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 			b = new char[tstr->GetSize()];
 			memcpy(b, tstr->GetMemory(), tstr->GetSize());
 			root81 = (root_81*)b;
+			check_root(root81, tstr->GetSize());
 		}
 		else
 		{
 			root81 = (root_81*)root_object->get_data();
+			check_root(root81, root_object->get_len());
 		}
-
-		locale = new char[strlen(root81->lang) + 1];
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root81->lang) + 1, root81->lang);
-#else
-		strcpy(locale, root81->lang);
-#endif
+		set_locale(root81->lang);
 
 		num_tables = root81->numblocks;
 		table_blocks = &(root81->blocks[0]);
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 534e81a..f553bdd 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -176,6 +176,7 @@ public:
 
 	static bool recoveryMode;
 	char* locale; // код языка базы
+	template<size_t N> void set_locale(const char (&lang)[N]);
 	bool is_depot; // признак хранилища конфигурации
 
 	// Таблицы информационной базы
-- 
2.43.0


From b131b2ef9a4c030f9a2b77613fbbf35bbfdcd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 048/129] fix: headers of objects with damaged lengths or free
 lists were read past their end

---
 src/tool1cd/V8Object.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 50e72ed..b01a922 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include <stdexcept>
+#include <cstddef>
 #include "V8Object.h"
 #include "Common.h"
 #include "Constants.h"
@@ -128,7 +129,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 			// numblocks - кол-во блоков с реальными данными
 			// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-			while(t->blocks[real_numblocks]) real_numblocks++;
+			while(real_numblocks < sizeof(t->blocks) / sizeof(t->blocks[0]) && t->blocks[real_numblocks]) real_numblocks++;
 			if(real_numblocks > 0)
 			{
 				blocks.clear();
@@ -146,6 +147,15 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			} else {
 				numblocks = 0;
 			}
+			if(numblocks > sizeof(t->blocks) / sizeof(t->blocks[0]))
+			{
+				const uint64_t bad_len = len;
+				delete t;
+				init();
+				throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше допустимой.")
+					.add_detail("Блок", to_hex_string(blockNum))
+					.add_detail("Длина объекта", bad_len);
+			}
 
 			if(numblocks > 0) {
 				blocks.clear();
@@ -205,6 +215,15 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		else {
 			numblocks = 0;
 		}
+		if(numblocks > (base->get_pagesize() - offsetof(v838ob_data, blocks)) / sizeof(uint32_t))
+		{
+			const uint64_t bad_len = len;
+			delete[] b;
+			init();
+			throw DetailedException("Ошибка получения файла из страницы. Длина файла больше допустимой.")
+				.add_detail("Блок", to_hex_string(blockNum))
+				.add_detail("Длина файла", bad_len);
+		}
 
 		if(numblocks > 0) {
 			blocks.clear();
@@ -248,7 +267,8 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 		// numblocks - кол-во блоков с реальными данными
 		// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-		while(t->blocks[real_numblocks]) real_numblocks++;
+		const uint32_t max_blocks = (base->get_pagesize() - offsetof(v838ob_free, blocks)) / sizeof(uint32_t);
+		while(real_numblocks < max_blocks && t->blocks[real_numblocks]) real_numblocks++;
 		if(real_numblocks > 0) {
 			blocks.clear();
 			blocks.resize(real_numblocks);
-- 
2.43.0


From 7bd4c1d358ee99c020fc44d3a66c29b1247a5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 049/129] fix: the byte order mark was not skipped when parsing
 a stream

---
 src/tool1cd/Parse_tree.cpp                  |  3 ++-
 src/tool1cd/SystemClasses/TStreamReader.cpp | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index b52466e..9965459 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -520,7 +520,8 @@ Tree* parse_flow(flow_type source, const std::string &path)
 
 unique_ptr<Tree> parse_1Cstream(TStream *str, const string &path)
 {
-	unique_ptr<Tree> result( parse_flow(new TStreamReader(str, true), path) );
+	TStreamReader reader(str, true);
+	unique_ptr<Tree> result( parse_flow(&reader, path) );
 	return result;
 }
 
diff --git a/src/tool1cd/SystemClasses/TStreamReader.cpp b/src/tool1cd/SystemClasses/TStreamReader.cpp
index c4ca7a3..69de177 100644
--- a/src/tool1cd/SystemClasses/TStreamReader.cpp
+++ b/src/tool1cd/SystemClasses/TStreamReader.cpp
@@ -18,6 +18,7 @@
     You should have received a copy of the GNU Lesser General Public License
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
+#include <cstring>
 #include "TStreamReader.hpp"
 
 namespace System {
@@ -28,6 +29,15 @@ namespace Classes {
 TStreamReader::TStreamReader(TStream *stream, bool DetectBOM)
 	: stream(stream)
 {
+	if (!DetectBOM) {
+		return;
+	}
+	const uint8_t bom[] = {0xEF, 0xBB, 0xBF};
+	uint8_t start[sizeof(bom)];
+	const auto data_read = stream->Read(start, sizeof(start));
+	if (data_read != sizeof(start) || memcmp(start, bom, sizeof(bom)) != 0) {
+		stream->Seek(-data_read, soFromCurrent);
+	}
 }
 
 int TStreamReader::Read()
-- 
2.43.0


From 63765615405b5ef8dcbdbe8f39a1f49a65d18a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 050/129] fix: an empty list was written to text as an empty
 value

---
 src/tool1cd/Parse_tree.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 9965459..bafe57d 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -215,6 +215,12 @@ void Tree::outtext(std::string &text)
 	{
 		switch(type)
 		{
+			case node_type::nd_list:
+				if (!text.empty()) {
+					text += "\r\n";
+				}
+				text += "{}";
+				break;
 			case node_type::nd_string:
 				text += "\"";
 				text += StringReplace(value, "\"", "\"\"", rfReplaceAll);
@@ -223,7 +229,6 @@ void Tree::outtext(std::string &text)
 			case node_type::nd_number:
 			case node_type::nd_number_exp:
 			case node_type::nd_guid:
-			case node_type::nd_list:
 			case node_type::nd_binary:
 			case node_type::nd_binary2:
 			case node_type::nd_link:
-- 
2.43.0


From 3de47edda652814d98c41aa1ffb5974d1c1225d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 051/129] fix: packing data of a whole number of 16 KiB blocks
 lost their tail

---
 src/tool1cd/UZLib.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 25a0e47..e294dbc 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -61,9 +61,6 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	// compress until end of file
 	do {
 		strm.avail_in = static_cast<unsigned int>(src->Read(in, CHUNKSIZE));
-		if (strm.avail_in == 0) {
-			return false;
-		}
 		/* TODO: ZDeflateStream проверка ошибок */
 
 		flush = (strm.avail_in < CHUNKSIZE) ? Z_FINISH : Z_NO_FLUSH;
-- 
2.43.0


From fe0984f35aeefe75cb65b0533e2a7ed9c327477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 052/129] fix: truncated packed data were accepted as complete

---
 src/tool1cd/UZLib.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index e294dbc..dcc374f 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -99,7 +99,8 @@ void ZInflateStream(TStream* src, TStream* dst)
 {
 	z_stream strm;
 	int ret;
-	
+	bool has_data = false;
+
 	unsigned have;
 
 	std::unique_ptr<unsigned char[]> srcBuf(new unsigned char[CHUNKSIZE]);
@@ -120,6 +121,7 @@ void ZInflateStream(TStream* src, TStream* dst)
 		strm.avail_in = static_cast<int>(src->Read(srcBuf.get(), CHUNKSIZE));
 
 		if (strm.avail_in == 0) break;
+		has_data = true;
 
 		strm.next_in = srcBuf.get();
 
@@ -157,6 +159,9 @@ void ZInflateStream(TStream* src, TStream* dst)
 	/* clean up and return */
 	(void)inflateEnd(&strm);
 
+	if (has_data && ret != Z_STREAM_END) {
+		throw ZError( "Input data was truncated" );
+	}
 }
 
 
-- 
2.43.0


From b2aa95b0c5daf2e3957751fefec77c5ac259fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 053/129] fix: data copied because they can not be unpacked
 were preceded by garbage

---
 src/tool1cd/UZLib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index dcc374f..4a78c59 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -167,11 +167,15 @@ void ZInflateStream(TStream* src, TStream* dst)
 
 void ZInflateOrCopy(TStream *src, TStream *dst)
 {
+	const auto dst_start = dst->GetPosition();
 	try {
 
 		ZInflateStream(src, dst);
 
 	} catch (ZError &) {
+		// распакованное до ошибки отбрасывается
+		dst->Seek(dst_start, soFromBeginning);
+		dst->SetSize(dst_start);
 		dst->CopyFrom(src, 0);
 	}
 }
-- 
2.43.0


From 14222a5564026321f15f1fe26dc6857a3be721b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 054/129] fix: EndsWithIC threw an exception on a name cut
 inside a character

---
 src/tool1cd/SystemClasses/String.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index 9ca704e..3ddbbfd 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -172,13 +172,13 @@ bool Equal(const std::string &a, const std::string &b)
 
 bool EndsWithIC(const std::string &str, const std::string &substr)
 {
-	if (substr.empty()) {
-		return true;
-	}
-	if (str.size() < substr.size()) {
+	// сравнивать нужно целые символы, а не байты
+	const std::string lower_str = LowerCase(str);
+	const std::string lower_substr = LowerCase(substr);
+	if (lower_str.size() < lower_substr.size()) {
 		return false;
 	}
-	return CompareIC(str.substr(str.size() - substr.size(), substr.size()), substr) == 0;
+	return lower_str.compare(lower_str.size() - lower_substr.size(), lower_substr.size(), lower_substr) == 0;
 }
 
 int ToIntDef(const std::string &s, int default_value)
-- 
2.43.0


From 79df9fa17f5ef84cf006eb6559629b90f50efe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 055/129] fix: moving a stream before its start or past its end
 was not refused

---
 src/tool1cd/SystemClasses/TStream.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index ff169b9..93d1592 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -59,18 +59,17 @@ int64_t TStream::Seek(const int64_t offset, const TSeekOrigin Origin)
 {
 	if (Origin == soFromBeginning) {
 
-		if (offset > GetSize()) {
+		if (offset < 0 || offset > GetSize()) {
 			throw Exception("Wrong offset");
 		}
 		m_position = offset;
 
 	} else if (Origin == soFromEnd) {
 
-		m_position = GetSize() - offset;
-
-		if (GetSize() < offset) {
+		if (offset < 0 || GetSize() < offset) {
 			throw Exception("Wrong offset");
 		}
+		m_position = GetSize() - offset;
 
 	} else {
 
-- 
2.43.0


From 96d82a8c709e67f8141982887524dcabc2d101d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 056/129] fix: setting the size of a file stream did not limit
 what is read from it

---
 src/tool1cd/SystemClasses/TStream.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 93d1592..d2dc246 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -21,6 +21,7 @@
 #include "TStream.hpp"
 #include "Exception.hpp"
 #include <cstring>
+#include <algorithm>
 
 using namespace std;
 
@@ -43,6 +44,9 @@ void TStream::SetSize(int64_t NewSize)
 {
 	// TODO: реализовать TStream::SetSize
 	m_size = NewSize;
+	if (m_position > m_size) {
+		m_position = m_size;
+	}
 }
 
 int64_t TStream::GetPosition() const
@@ -195,6 +199,11 @@ void TWrapperStream::init_size()
 
 int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 {
+	// размер потока может быть установлен меньше или больше размера файла
+	Count = std::min(Count, m_size - m_position);
+	if (Count <= 0) {
+		return 0;
+	}
 	_stream->clear();
 	_stream->seekg(GetPosition(), std::ios_base::beg);
 	_stream->read((char*)Buffer, Count);
@@ -203,9 +212,9 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 		std::cerr << err << std::endl;
 		throw Exception(err);
 	}
-	auto data_read = _stream->gcount();
-	m_position += data_read;
-	return data_read;
+	memset((char*)Buffer + _stream->gcount(), 0, Count - _stream->gcount());
+	m_position += Count;
+	return Count;
 }
 
 int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
-- 
2.43.0


From a3b41fa5b086a6966d32f77562e978d72ed99666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 057/129] fix: the sign of a number read from text was stored
 as a digit

---
 src/tool1cd/BinaryDecimalNumber.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 81d20e2..5ccdd61 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -85,7 +85,9 @@ BinaryDecimalNumber::BinaryDecimalNumber(const std::string &presentation, bool h
 	int part_no = 0;
 
 	for (char c : presentation) {
-		if (c == '.') {
+		if (c == '-') {
+			sign = -1;
+		} else if (c == '.') {
 			part_no++;
 		} else {
 			parts[part_no].push_back(c - '0');
-- 
2.43.0


From dfda6b65250321dec80d3e6d6b234818f622e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 058/129] fix: deleting a file of a container used the deleted
 file

---
 src/tool1cd/cfapi/V8Catalog.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6ba6e48..5999e21 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -388,11 +388,12 @@ void V8Catalog::delete_file(const string &FileName)
 	V8File* f = first;
 	while(f)
 	{
+		V8File* next = f->get_next();
 		if (EqualIC(f->get_file_name(), FileName)) {
 			f->delete_file();
 			delete f;
 		}
-		f = f->get_next();
+		f = next;
 	}
 	Lock->Release();
 }
-- 
2.43.0


From 94475659c600f0fd1156819b5b061aeca6f1b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 059/129] fix: a page without space for data corrupted the
 container when it was used again

---
 src/tool1cd/cfapi/V8Catalog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 5999e21..1e6e663 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -643,7 +643,9 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 
 		data->Seek(start, soFromBeginning);
 		data->WriteBuffer(&block_header, stBlockHeader::size());
-		data->CopyFrom(block, curlen);
+		if(curlen) { // CopyFrom(..., 0) копирует поток целиком
+			data->CopyFrom(block, curlen);
+		}
 		if(addwrite) {
 			_t = new char [blocklen - len];
 			memset(_t, 0, blocklen - len);
-- 
2.43.0


From 16aa163dc79c5a03ce2d25dd532d095569ca1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 060/129] fix: a file created without contents made the
 container unreadable

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 1e6e663..8aec245 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -684,6 +684,7 @@ V8Catalog::~V8Catalog()
 	f = first;
 	while(f)
 	{
+		if(!f->get_start_header()) f->open(); // созданный файл, в который ничего не записали
 		f->close();
 		f = f->get_next();
 	}
@@ -840,6 +841,7 @@ void V8Catalog::Flush()
 	f = first;
 	while(f)
 	{
+		if(!f->get_start_header()) f->open(); // созданный файл, в который ничего не записали
 		f->flush();
 		f = f->get_next();
 	}
-- 
2.43.0


From 42d157ab4351bfec3c7bcad0f35eb170810a2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 061/129] fix: a file whose first page has no space was read as
 the whole container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 8aec245..76a4ae1 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -61,11 +61,13 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
-	stream_to->CopyFrom(stream_from, readlen);
+	if(readlen > 0) { // CopyFrom(..., 0) копирует поток целиком
+		stream_to->CopyFrom(stream_from, readlen);
+	}
 
 	int32_t pos = readlen;
 
-	while(start != LAST_BLOCK) {
+	while(start != LAST_BLOCK && pos < len) {
 		stream_from->Seek(start, soFromBeginning);
 		stream_from->Read(&block_header, block_header.size());
 
@@ -74,7 +76,9 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
-		stream_to->CopyFrom(stream_from, readlen);
+		if(readlen > 0) {
+			stream_to->CopyFrom(stream_from, readlen);
+		}
 		pos += readlen;
 	}
 
-- 
2.43.0


From 6c59f4c4bd9ea5da6ee92f788678a823bd9a3cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 062/129] fix: a cfu container created without files could not
 be opened again

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 76a4ae1..da5931a 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -172,6 +172,8 @@ V8Catalog::V8Catalog(const string &name) // создать каталог из 
 		{
 			data->WriteBuffer(_EMPTY_CATALOG_TEMPLATE, stFileHeader::size());
 			cfu = new TFileStream(name, fmCreate);
+			data->Seek(0, soFromBeginning);
+			ZDeflateStream(data, cfu);
 		}
 		else
 		{
-- 
2.43.0


From 6242b02e195f7235bea61712acd2fb0f2b5746dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 063/129] fix: a nested container could not be saved to a
 directory because names kept their terminating zeroes

---
 src/tool1cd/cfapi/V8Catalog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index da5931a..e0bc44e 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -343,6 +343,7 @@ void V8Catalog::initialize()
 				// TODO: константы 20, 8
 
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
+				_name = _name.c_str(); // имя завершается нулями
 				int64_t time_create = *(int64_t*)_temp_buf;
 				int64_t time_modify = *(int64_t*)_temp_buf + 8;
 
-- 
2.43.0


From 738029f87858351cc80e89583ca70f8fc580f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 064/129] fix: data with a free page address near 4 GiB made
 the container check fail

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 src/tool1cd/cfapi/V8File.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index e0bc44e..ca93c53 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -124,7 +124,7 @@ bool V8Catalog::is_catalog() const
 	data->Seek(0, soFromBeginning);
 	data->Read(&_startempty, 4);
 	if(_startempty != LAST_BLOCK){
-		if(_startempty + 31 >= _filelen)
+		if((int64_t)_startempty + 31 >= _filelen)
 		{
 			Lock->Release();
 			return false;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 38846ed..67434d1 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -349,7 +349,7 @@ bool V8File::is_catalog()
 		data->Seek(0, soFromBeginning);
 		data->Read(&_startempty, 4);
 		if(_startempty != LAST_BLOCK){
-			if(_startempty + 31 >= _filelen){
+			if((int64_t)_startempty + 31 >= _filelen){
 				iscatalog = FileIsCatalog::no;
 				Lock->Release();
 				return false;
-- 
2.43.0


From e14526289cc9771c1f529a062a2a8e5ab91f4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 065/129] fix: the list of streams of a file was walked while
 it was changing

---
 src/tool1cd/cfapi/V8File.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 67434d1..2bf0557 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -583,12 +583,10 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 // деструктор
 V8File::~V8File()
 {
-	std::set<TV8FileStream*>::iterator istreams;
-
 	Lock->Acquire();
 	_destructed = true;
-	for(istreams = _streams.begin(); istreams != _streams.end(); ++istreams) {
-		delete *istreams;
+	for(auto stream : TV8FileStreams(_streams)) { // поток при удалении исключает себя из _streams
+		delete stream;
 	}
 	_streams.clear();
 
-- 
2.43.0


From 5be6de7ef04a33e0e75ef2b9af1e24752523a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 066/129] fix: damaged page chains of a container were read
 endlessly or past its end

---
 src/tool1cd/cfapi/V8Catalog.cpp | 62 +++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index ca93c53..1490fbb 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -24,11 +24,28 @@
 #include "V8Catalog.h"
 #include "../UZLib.h"
 #include "../Common.h"
+#include "../DetailedException.h"
 #include "../SystemClasses/String.hpp"
 
 using namespace std;
 using namespace System;
 
+//---------------------------------------------------------------------------
+// читает заголовок страницы блока
+static void read_block_header(TStream* stream_from, int start, stBlockHeader &block_header)
+{
+	if(start < 0 || start + (int64_t)stBlockHeader::size() > stream_from->GetSize()) {
+		throw DetailedException("Поврежден блок контейнера. Адрес страницы за пределами контейнера.")
+			.add_detail("Адрес", start);
+	}
+	stream_from->Seek(start, soFromBeginning);
+	stream_from->Read(&block_header, stBlockHeader::size());
+	if(!block_header.is_correct()) {
+		throw DetailedException("Поврежден блок контейнера. Неверный заголовок страницы.")
+			.add_detail("Адрес", start);
+	}
+}
+
 //---------------------------------------------------------------------------
 // читает блок из потока каталога stream_from, собирая его по страницам
 TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullptr)
@@ -42,14 +59,15 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	stream_to->Seek(0, soFromBeginning);
 	stream_to->SetSize(0);
 
+	const int64_t size_from = stream_from->GetSize();
+
 	if( start < 0
 			|| start == LAST_BLOCK
-			|| start > stream_from->GetSize() ) {
+			|| start > size_from ) {
 		return stream_to;
 	}
 
-	stream_from->Seek(start, soFromBeginning);
-	stream_from->Read(&block_header, stBlockHeader::size());
+	read_block_header(stream_from, start, block_header);
 
 	int32_t len = block_header.get_data_size();
 
@@ -57,29 +75,35 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		return stream_to;
 	}
 
-	int32_t curlen = block_header.get_page_size();
-	start = block_header.get_next_page_addr();
-
-	int32_t readlen = std::min(len, curlen);
-	if(readlen > 0) { // CopyFrom(..., 0) копирует поток целиком
-		stream_to->CopyFrom(stream_from, readlen);
+	if(len < 0 || len > size_from) {
+		throw DetailedException("Поврежден блок контейнера. Неверный размер данных.")
+			.add_detail("Адрес", start)
+			.add_detail("Размер", len);
 	}
 
-	int32_t pos = readlen;
+	int64_t pages_left = size_from / stBlockHeader::size();
+	int32_t pos = 0;
 
-	while(start != LAST_BLOCK && pos < len) {
-		stream_from->Seek(start, soFromBeginning);
-		stream_from->Read(&block_header, block_header.size());
+	while(true) {
+		int32_t curlen = block_header.get_page_size();
+		start = block_header.get_next_page_addr();
 
-		curlen = block_header.get_page_size();
+		int32_t readlen = std::min(len - pos, curlen);
+		if(readlen > 0) { // CopyFrom(..., 0) копирует поток целиком
+			pos += stream_to->CopyFrom(stream_from, readlen);
+		}
 
-		start  = block_header.get_next_page_addr();
+		if(pos >= len) {
+			break;
+		}
 
-		readlen = std::min(len - pos, curlen);
-		if(readlen > 0) {
-			stream_to->CopyFrom(stream_from, readlen);
+		if(start == LAST_BLOCK || --pages_left < 0) {
+			throw DetailedException("Поврежден блок контейнера. Страницы не содержат всех данных.")
+				.add_detail("Размер", len)
+				.add_detail("Прочитано", pos);
 		}
-		pos += readlen;
+
+		read_block_header(stream_from, start, block_header);
 	}
 
 	return stream_to;
-- 
2.43.0


From ff319f2da7714b774bb24d93e48b15eeea48f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 067/129] fix: a short file header of a container was read past
 its end

---
 src/tool1cd/cfapi/V8Catalog.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 1490fbb..52734e2 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -362,7 +362,12 @@ void V8Catalog::initialize()
 				read_block(data, elem_addr.header_addr, file_data.get());
 				file_data->Seek(0, soFromBeginning);
 				auto header_size = file_data->GetSize();
-				_temp_buf = new char[header_size];
+				if(header_size < 20) {
+					throw DetailedException("Поврежден заголовок файла контейнера.")
+						.add_detail("Размер", header_size);
+				}
+				vector<char> header(header_size);
+				_temp_buf = header.data();
 				file_data->Read(_temp_buf, header_size);
 				// TODO: константы 20, 8
 
@@ -372,7 +377,6 @@ void V8Catalog::initialize()
 				int64_t time_modify = *(int64_t*)_temp_buf + 8;
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
-				delete[] _temp_buf;
 
 				if(!_prev) {
 					first = _file;
@@ -396,7 +400,7 @@ void V8Catalog::initialize()
 		iscatalogdefined = true;
 
 		first = nullptr;
-		last = nullptr;
+		_prev = nullptr;
 		zipped = false;
 
 	}
-- 
2.43.0


From f742882c9abc7b0892de911baeff73d4166ba1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 068/129] fix: one damaged file of a container kept the other
 files from being saved

---
 src/tool1cd/cfapi/V8Catalog.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 52734e2..d23bf37 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -25,8 +25,11 @@
 #include "../UZLib.h"
 #include "../Common.h"
 #include "../DetailedException.h"
+#include "../MessageRegistration.h"
 #include "../SystemClasses/String.hpp"
 
+extern Registrator msreg_g;
+
 using namespace std;
 using namespace System;
 
@@ -839,11 +842,19 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 	V8File* f = first;
 	while(f)
 	{
-		if(f->is_catalog()) {
-			f->get_catalog()->SaveToDir(dir / f->get_file_name());
+		try {
+			V8Catalog* catalog = f->get_catalog();
+			if(catalog && catalog->isOpen()) {
+				catalog->SaveToDir(dir / f->get_file_name());
+			}
+			else {
+				f->save_to_file(dir / f->get_file_name());
+			}
 		}
-		else {
-			f->save_to_file(dir / f->get_file_name());
+		catch(const std::exception &ex) {
+			msreg_g.AddError("Ошибка сохранения файла контейнера")
+				.with("Файл", f->get_full_name())
+				.with("Ошибка", string(ex.what()));
 		}
 		f->close();
 		f = f->get_next();
-- 
2.43.0


From 740c1ca667c8d1394b1708104e072fd644facb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 069/129] fix: names of files in a container could lead out of
 the directory they are saved to

---
 src/tool1cd/cfapi/V8Catalog.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index d23bf37..312ee28 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -831,6 +831,18 @@ V8Catalog* V8Catalog::CreateCatalog(const string &FileName, bool _selfzipped)
 	return ret;
 }
 
+//---------------------------------------------------------------------------
+// имя, под которым файл контейнера сохраняется в каталог
+static string name_in_directory(const string &name)
+{
+	string result = StringReplace(name, "/", "_", rfReplaceAll);
+	result = StringReplace(result, "\\", "_", rfReplaceAll);
+	if(result.empty() || result == "." || result == "..") {
+		result = "_" + result;
+	}
+	return result;
+}
+
 //---------------------------------------------------------------------------
 // сохранить в файловую систему
 void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
@@ -842,13 +854,14 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 	V8File* f = first;
 	while(f)
 	{
+		const boost::filesystem::path file_path = dir / name_in_directory(f->get_file_name());
 		try {
 			V8Catalog* catalog = f->get_catalog();
 			if(catalog && catalog->isOpen()) {
-				catalog->SaveToDir(dir / f->get_file_name());
+				catalog->SaveToDir(file_path);
 			}
 			else {
-				f->save_to_file(dir / f->get_file_name());
+				f->save_to_file(file_path);
 			}
 		}
 		catch(const std::exception &ex) {
-- 
2.43.0


From 8108505b51deb0654866db1f76736c27eceea104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 070/129] fix: data written to a file without data of an
 existing container were lost

---
 src/tool1cd/cfapi/V8File.cpp | 13 ++++++++++---
 src/tool1cd/cfapi/V8File.h   |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 2bf0557..03a7fbd 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -503,7 +503,7 @@ void V8File::close(){
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				set_start_data(parent->write_datablock(data, start_data, _selfzipped));
 			}
 			if(is_headermodified)
 			{
@@ -559,7 +559,7 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 		auto wname = SysUtils::TEncoding::Unicode->fromUtf8(name);
 
 		parent->Acquire();
-		start_data = parent->write_datablock(Stream, start_data, _selfzipped, Length);
+		set_start_data(parent->write_datablock(Stream, start_data, _selfzipped, Length));
 		TMemoryStream hs;
 		_time_create.write_to_stream(&hs);
 		_time_modify.write_to_stream(&hs);
@@ -654,7 +654,7 @@ void V8File::flush()
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				set_start_data(parent->write_datablock(data, start_data, _selfzipped));
 				_datamodified = false;
 			}
 			if(is_headermodified)
@@ -714,6 +714,13 @@ int V8File::get_start_header() const {
 	return start_header;
 }
 
+void V8File::set_start_data(int value) {
+	if (start_data != value) {
+		start_data = value;
+		parent->fatmodified(true); // адрес данных хранится в оглавлении каталога
+	}
+}
+
 bool V8File::get_data_modified() const {
 	return _datamodified;
 }
diff --git a/src/tool1cd/cfapi/V8File.h b/src/tool1cd/cfapi/V8File.h
index fe2e869..58b7a9b 100644
--- a/src/tool1cd/cfapi/V8File.h
+++ b/src/tool1cd/cfapi/V8File.h
@@ -127,6 +127,8 @@ private:
 	bool _selfzipped;        // Признак, что файл является запакованным независимо от признака zipped каталога
 	TV8FileStreams _streams;
 
+	void set_start_data(int value);
+
 	inline bool try_open() { return (!is_opened) ? open() : true; }
 };
 
-- 
2.43.0


From 8d72e231ee51df44f0bb7fa91eeb60963581e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 071/129] fix: reading a file without data changed the
 container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 312ee28..b447acf 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -362,6 +362,9 @@ void V8Catalog::initialize()
 				stElemAddr elem_addr;
 
 				_fat->Read(&elem_addr, stElemAddr::size());
+				if(elem_addr.data_addr == 0) {
+					elem_addr.data_addr = LAST_BLOCK; // данных нет
+				}
 				read_block(data, elem_addr.header_addr, file_data.get());
 				file_data->Seek(0, soFromBeginning);
 				auto header_size = file_data->GetSize();
-- 
2.43.0


From 37c1d1ff16143e9e0bf16a36726ef6f3fdc4d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 072/129] fix: the modification time of files of an existing
 container was not read

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index b447acf..f062856 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -380,7 +380,7 @@ void V8Catalog::initialize()
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
 				_name = _name.c_str(); // имя завершается нулями
 				int64_t time_create = *(int64_t*)_temp_buf;
-				int64_t time_modify = *(int64_t*)_temp_buf + 8;
+				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
 
-- 
2.43.0


From fddddcaa4544f1a9c214dc721d63ac0e83c83c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 073/129] fix: the identifier of a dynamic update was cut
 wrongly from the name of a file

So the export of the database configuration always ignored dynamic updates.
---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 81a66d8..ea4c69c 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -641,7 +641,7 @@ ConfigStorageTableConfig::ConfigStorageTableConfig(TableFiles* tabf, T_1CD* _bas
 		{
 			auto m = name.rfind(sdynupdate);
 			if (m != string::npos) {
-				string update_id = name.substr(m + lsdynupdate - 1, name.size() - m - lsdynupdate);
+				string update_id = name.substr(m + lsdynupdate, name.size() - m - lsdynupdate);
 				name = name.substr(0, m);
 				BinaryGuid update_guid = BinaryGuid(update_id);
 				if (!dynup.empty()) {
-- 
2.43.0


From d4cf620691cbc2de3dd5a139f5b9f26d675ae192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 074/129] fix: the export of the main configuration cut the
 last letter off file names

Names with an extension or of a dynamic update lost the letter before it.
---
 src/tool1cd/ConfigStorage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index ea4c69c..47a4139 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -791,7 +791,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 
 		m = s.rfind(spoint);
 		if (m != string::npos) {
-			name = s.substr(0, m - 1);
+			name = s.substr(0, m);
 			ext = s.substr(m + 1, s.size() - m);
 		}
 		else
@@ -808,7 +808,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 		m = name.find(sdynupdate);
 		if (m != string::npos) {
 			string s = name.substr(m + lsdynupdate, name.size() - m - lsdynupdate + 1);
-			name = name.substr(0, m - 1);
+			name = name.substr(0, m);
 			string_to_GUID(s, &g);
 			if (!dynup.empty())
 			{
-- 
2.43.0


From 9cdaef44e816f57cad0241263fd1e92f70ec847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 075/129] fix: files deleted from the main configuration were
 exported

The identifiers of deleted files were turned into another form than file names have.
---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 47a4139..62ada9a 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -735,7 +735,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 			throw ex;
 		}
 		for (auto &guid : dynup) {
-			del.insert(LowerCase(guid.as_MS()));
+			del.insert(LowerCase(guid.as_1C()));
 		}
 	}
 
-- 
2.43.0


From 6b33c8f5e765d7d19e7fa14e7884acbf63cdad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 076/129] fix: configuration adapters did not find files by a
 path of several parts

The last letter of every part but the last was lost.
---
 src/tool1cd/ConfigStorage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 62ada9a..4f2ee5b 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -126,7 +126,7 @@ ConfigFile* ConfigStorageCFFile::readfile(const std::string &path)
 	V8Catalog* c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		V8File *f = c->get_file(fname.substr(0, i - 1));
+		V8File *f = c->get_file(fname.substr(0, i));
 		if(!f) {
 			return nullptr;
 		}
@@ -164,7 +164,7 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		c = c->CreateCatalog(fname.substr(0, i - 1));
+		c = c->CreateCatalog(fname.substr(0, i));
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
@@ -202,7 +202,7 @@ bool ConfigStorageCFFile::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 	V8File *f = cat->get_file(fname);
 	return f != nullptr;
@@ -422,7 +422,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 	{
 		auto i = fname.find("\\");
 		if (i != string::npos) {
-			top_level_name = fname.substr(0, i - 1);
+			top_level_name = fname.substr(0, i);
 			fname = fname.substr(i + 1, fname.size() - i - 1);
 		} else {
 			top_level_name = fname;
@@ -443,7 +443,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 		}
 		V8Catalog *parent_cat = top_file->cat;
 		for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\")) {
-			V8File *f = parent_cat->get_file(fname.substr(0, i - 1));
+			V8File *f = parent_cat->get_file(fname.substr(0, i));
 			if (!f) {
 				// TODO: бросить исключение???
 				return nullptr;
@@ -564,7 +564,7 @@ bool ConfigStorageTable::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 
 	return files.find(LowerCase(fname)) != files.end();
-- 
2.43.0


From 4cf089f41dd8990ed127afd35bdbd0ee846fa6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 077/129] fix: names and versions of vendor configurations
 could lead out of the directory

They are arbitrary strings, and a slash in them made the export fail or write elsewhere.
---
 src/ctool1cd/App.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 813267f..3eb6656 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -24,6 +24,7 @@
 #include <boost/filesystem/fstream.hpp>
 
 #include <iosfwd>
+#include <algorithm>
 #include <vector>
 
 #include "App.h"
@@ -357,7 +358,10 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 	}
 
 	for (auto& supplier_config : base1CD->supplier_configs()) {
+		// имя и версия - произвольные строки, путями они быть не должны
 		string file_name = supplier_config->name() + " " + supplier_config->version() + CF_STR;
+		std::replace(file_name.begin(), file_name.end(), '/', '_');
+		std::replace(file_name.begin(), file_name.end(), '\\', '_');
 		boost::filesystem::path cfpath = param_path / file_name;
 		if ( supplier_config->save_to_file(cfpath) ) {
 			msreg_g.AddMessage("Сохранение конфигурации поставщика завершено.", MessageState::Succesfull)
-- 
2.43.0


From 34a4b1f0c6fdf30bdc57e1fc94cc9e670633a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 078/129] fix: a depot without objects crashed the export of
 its versions

---
 src/tool1cd/save_depot_config.cpp      | 3 +++
 src/tool1cd/save_part_depot_config.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 928026e..ada0066 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -218,6 +218,9 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 	reces.resize(0);
 
 	auto HistoryIndex_numrec = index_history->get_numrecords();
+	if (HistoryIndex_numrec == 0) {
+		throw DetailedException("В хранилище нет ни одного объекта конфигурации.");
+	}
 	IndexedTableIterator externals_iterator(table_externals, "PK");
 
 	if (boost::filesystem::exists(filepath)) {
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index a2dc786..b30235c 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -217,6 +217,9 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	TableRecord *rece = nullptr;
 
 	uint32_t history_records = history_pk->get_numrecords();
+	if (history_records == 0) {
+		throw DetailedException("В хранилище нет ни одного объекта конфигурации.");
+	}
 	uint32_t external_records = externals_pk->get_numrecords();
 
 	boost::filesystem::path cath (filepath);
-- 
2.43.0


From cc8413a784ef81002b2ba5a54d06197b75fece1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 079/129] fix: objects of a depot that can not be unpacked were
 preceded by garbage

---
 src/tool1cd/TableRecord.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 7ded7bf..839e42c 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -185,11 +185,7 @@ bool TableRecord::try_store_blob_data(const Field *field, TStream *&out, bool in
 		TMemoryStream in;
 		table->readBlob(&in, b.blob_start, b.blob_length);
 		in.Seek(0, soFromBeginning);
-		try {
-			ZInflateStream(&in, out);
-		} catch (ZError) {
-			out->CopyFrom(&in, 0);
-		}
+		ZInflateOrCopy(&in, out);
 	}
 	else {
 		table->readBlob(out, b.blob_start, b.blob_length);
-- 
2.43.0


From 165f956bf2ee6d66206c50fb3ed7e04c144a2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 080/129] fix: comparing two versions of an object of a depot
 crashed or compared the wrong data

Both contents were read into the same stream, what was left of another object
was compared and written, and the hash was compared in depots that have none.
---
 src/tool1cd/save_part_depot_config.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index b30235c..6568b13 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -294,26 +294,22 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 								if(datapacked)
 								{
 									auto b = rech1->get<table_blob_file>(fldh_objdata);
-									if (!rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0)) {
-
+									auto b2 = rech2->get<table_blob_file>(fldh_objdata);
+									bool hasdata1 = !rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0);
+									bool hasdata2 = !rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0);
+									if (hasdata1 && hasdata2) {
 										table_history->readBlob(out, b.blob_start, b.blob_length);
-
-										auto b2 = rech2->get<table_blob_file>(fldh_objdata);
-										if (!rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0)) {
-										{
-											table_history->readBlob(out, b2.blob_start, b2.blob_length);
-											inreaded = true;
-											if (in->GetSize() == out->GetSize()) {
-												if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
-													changed = false;
-												}
+										table_history->readBlob(in, b2.blob_start, b2.blob_length);
+										inreaded = true;
+										if (in->GetSize() == out->GetSize()) {
+											if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
+												changed = false;
 											}
 										}
 									}
-									else if(depotVer >= depot_ver::Ver6)
+									else if(depotVer >= depot_ver::Ver6
+											&& !rech1->is_null_value(fldh_datahash) && !rech2->is_null_value(fldh_datahash))
 									{
-										// TODO: тип под Datahash
-									}
 										if (memcmp(rech2->get_data(fldh_datahash)
 												, rech1->get_data(fldh_datahash)
 												, fldh_datahash->get_length()) == 0) {
-- 
2.43.0


From b22f8e476c463dd8f0011a3088da618c85a1faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 081/129] fix: the list of deleted objects was written to a
 path under the base file

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 6568b13..ec54150 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -495,7 +495,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	delete sw;
 	if(hasdeleted)
 	{
-		f = new TFileStream(root_path / "deleted", fmCreate);
+		f = new TFileStream(filepath / "deleted", fmCreate);
 		f->CopyFrom(sd, 0);
 		delete f;
 	}
-- 
2.43.0


From 9d12184c57780ba597ba8c699ea479846e4cde5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 082/129] fix: names of external files of a depot could lead
 out of the directory they are saved to

---
 src/tool1cd/save_part_depot_config.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index ec54150..4826666 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -40,6 +40,18 @@
 using namespace std;
 using namespace System;
 
+//---------------------------------------------------------------------------
+// имя файла, под которым внешний файл объекта сохраняется в каталог: путём оно быть не должно
+static string external_file_name(const string &ext_name)
+{
+	string result = StringReplace(ext_name, "/", "_", rfReplaceAll);
+	result = StringReplace(result, "\\", "_", rfReplaceAll);
+	if (result.empty() || result == "." || result == "..") {
+		result = "_" + result;
+	}
+	return result;
+}
+
 //---------------------------------------------------------------------------
 // Сохранение файлов конфигурации в каталог из хранилища конфигураций
 // ver_begin - начальный номер диапазона версий сохраняемых файлов конфигурации
@@ -443,10 +455,10 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 												cat = new V8Catalog(out, false, true);
 												iscatalog = cat->is_catalog();
 											}
-											if(iscatalog) cat->SaveToDir((cath / ext_name).string());
+											if(iscatalog) cat->SaveToDir((cath / external_file_name(ext_name)).string());
 											else
 											{
-												TFileStream f(cath / ext_name, fmCreate);
+												TFileStream f(cath / external_file_name(ext_name), fmCreate);
 												f.CopyFrom(out, 0);
 											}
 											delete cat;
-- 
2.43.0


From ac5141ffa090c01fc40f52a052c6b53ed2a4cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 083/129] fix: a record of a depot without data and without a
 hash was read out of bounds

---
 src/tool1cd/PackDirectory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/PackDirectory.cpp b/src/tool1cd/PackDirectory.cpp
index 4025fce..e37d312 100644
--- a/src/tool1cd/PackDirectory.cpp
+++ b/src/tool1cd/PackDirectory.cpp
@@ -75,6 +75,10 @@ TStream* PackDirectory::get_data(const std::string &datahash, bool &found)
 {
 	found = false;
 
+	if (datahash.size() != DATAHASH_FIELD_LENGTH * 2) {
+		return nullptr;
+	}
+
 	char binary_hash[DATAHASH_FIELD_LENGTH];
 	binary_datahash(datahash, binary_hash);
 
-- 
2.43.0


From 085b5f95b9c8e56f00f3777666444015626714c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 084/129] fix: files of objects of a depot were not named as in
 a configuration

Their names were 32 hexadecimal digits in the order of storage, not the identifier.
---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 4826666..d5110d9 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -270,7 +270,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 				if(hasrech2)
 				{
 					lastver = ToIntDef(rech2->get_string(fldh_vernum), numeric_limits<int32_t>::max());
-					string sObjId = rech2->get_string(fldh_objid);
+					string sObjId = rech2->get<BinaryGuid>(fldh_objid).as_MS();
 
 					hasext = true;
 					bool removed = rech2->get<bool>(fldh_removed);
-- 
2.43.0


From af2f0a42ae6aa55a266c223344866fca3f7f987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 085/129] fix: every packed object of a depot left a file open

The export of a range of versions with more than about a thousand objects failed.
---
 src/tool1cd/save_part_depot_config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index d5110d9..741ad4b 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -349,6 +349,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 								else if(depotVer >= depot_ver::Ver6)
 								{
 									sobj = pack_directory.get_data(rech2->get_string(fldh_datahash), ok);
+									deletesobj = true;
 								}
 
 								if(!ok)
@@ -436,6 +437,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 										else if(depotVer >= depot_ver::Ver6)
 										{
 											sobj = pack_directory.get_data(rece->get_string(flde_datahash), ok);
+											deletesobj = true;
 										}
 										if(!ok)
 										{
-- 
2.43.0


From 0f3ab5acab377cc2fc38c8987f5148b46347dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 086/129] fix: an object with a damaged header left a dangling
 entry in the list of objects

---
 src/tool1cd/V8Object.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index b01a922..4ecacdc 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -80,12 +80,6 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	base = _base;
 	lockinmemory = false;
 
-	prev = last;
-	next = nullptr;
-	if(last) last->next = this;
-	else first = this;
-	last = this;
-
 	if(blockNum == 1)
 	{
 		if(base->get_version() < db_ver::ver8_3_8_0) type = v8objtype::free80;
@@ -283,6 +277,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	}
 
 
+	// в список попадает только удачно созданный объект: деструктор после исключения не вызывается
+	prev = last;
+	next = nullptr;
+	if(last) last->next = this;
+	else first = this;
+	last = this;
+
 	msreg_g.AddDebugMessage("Создан объект", MessageState::Info)
 			.with("Номер блока", to_hex_string(blockNum))
 			.with("Длина", len)
-- 
2.43.0


From 5ad521dda4906e371e1907e71deeec08a20a81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 087/129] fix: lost objects were saved beside the directory,
 and a damaged one ended the search

---
 src/tool1cd/Class_1CD.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index f64414b..8304e16 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1897,8 +1897,14 @@ void T_1CD::find_and_save_lost_objects(boost::filesystem::path &lost_objects)
 				}
 			}
 			if(!block_is_find) {
-				unique_ptr<V8Object> find_v8obj(new V8Object(this, i));
-				find_v8obj->savetofile(lost_objects.string() + "block" + to_string(i));
+				// поврежденный объект не должен помешать сохранить остальные
+				try {
+					unique_ptr<V8Object> find_v8obj(new V8Object(this, i));
+					find_v8obj->savetofile(lost_objects / ("block" + to_string(i)));
+				}
+				catch (DetailedException &ex) {
+					ex.show();
+				}
 			}
 		}
 	}
-- 
2.43.0


From 1256bfa6fe8a0c06a1fab936ade59cbc90958cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 088/129] fix: a damaged index was read in circles, past the
 end of its pages or overran the list of records

---
 src/tool1cd/Index.cpp | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index b29d0a0..35c188d 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -85,7 +85,6 @@ uint32_t Index::get_numrec(uint32_t num_record) const
 //---------------------------------------------------------------------------
 void Index::create_recordsindex() const
 {
-	char* buf;
 	int32_t curlen;
 	uint64_t curblock;
 	uint32_t mask;
@@ -95,9 +94,30 @@ void Index::create_recordsindex() const
 
 	msreg_g.Status("Чтение индекса ");
 
-	buf = new char[pagesize];
+	std::vector<char> page(pagesize);
+	char* buf = page.data();
 
 	file_index = tbase->get_file_index();
+	// в поврежденном индексе страницы могут ссылаться друг на друга по кругу
+	uint64_t pages_left = file_index->get_len() / pagesize;
+	auto read_page = [&]() {
+		if(!pages_left--)
+		{
+			throw DetailedException("Ошибка чтения индекса. Страницы индекса зациклены.")
+				.add_detail("Таблица", tbase->get_name())
+				.add_detail("Индекс", name);
+		}
+		file_index->get_data(buf, curblock, pagesize);
+	};
+	auto check_page = [&](bool correct) {
+		if(!correct)
+		{
+			throw DetailedException("Ошибка чтения индекса. Неверный формат страницы индекса.")
+				.add_detail("Таблица", tbase->get_name())
+				.add_detail("Индекс", name)
+				.add_detail("Смещение страницы", curblock);
+		}
+	};
 	file_index->get_data(buf, start, 8);
 
 	rootblock = *(uint32_t*)buf;
@@ -106,18 +126,20 @@ void Index::create_recordsindex() const
 
 	curblock = rootblock;
 
-	file_index->get_data(buf, curblock, pagesize);
+	read_page();
 	curlen = *(int16_t*)(buf + 2);
+	recordsindex.clear();
 	if(curlen)
 	{
-		recordsindex.resize(tbase->get_file_data()->get_len() / tbase->get_recordlen());
+		recordsindex.reserve(tbase->get_file_data()->get_len() / tbase->get_recordlen());
 		bool is_leaf = buf[0] & 0x2;
 		while(!is_leaf)
 		{
+			check_page((int64_t)length + 16 + (int64_t)sizeof(uint32_t) <= (int64_t)pagesize);
 			curblock = *(uint32_t*)(buf + 16 + length);
 			curblock = 	reverse_byte_order(curblock);
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
-			file_index->get_data(buf, curblock, pagesize);
+			read_page();
 
 			is_leaf = buf[0] & 0x2;
 		}
@@ -130,9 +152,11 @@ void Index::create_recordsindex() const
 			mask = *(uint32_t*)(buf + 14);
 			int32_t rlen = *(int16_t*)(buf + 28);
 			char *rbuf = buf + 30;
+			check_page(rlen >= 0 && (curlen <= 0 || 30 + (int64_t)(curlen - 1) * rlen + (int64_t)sizeof(uint32_t) <= (int64_t)pagesize));
 			for (int32_t i = 0; i < curlen; i++)
 			{
-				recordsindex[curindex++] = *(uint32_t*)rbuf & mask;
+				recordsindex.push_back(*(uint32_t*)rbuf & mask);
+				curindex++;
 				rbuf += rlen;
 				if(curindex % 10000 == 0) {
 					msreg_g.Status(string("Чтение индекса ") + to_string(curindex));
@@ -140,13 +164,11 @@ void Index::create_recordsindex() const
 			}
 			if(curblock == LAST_PAGE) break; // FIXME: разобраться LAST_PAGE == UINT_MAX, а тут uint64_t curblock
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
-			file_index->get_data(buf, curblock, pagesize);
+			read_page();
 		}
-		recordsindex.resize(curindex);
 	}
 
 	recordsindex_complete = true;
-	delete[] buf;
 	tbase->set_log_numrecords(recordsindex.size());
 	msreg_g.Status("");
 }
-- 
2.43.0


From faba0ab18c88349e4e33fe83d7a954b219071c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 089/129] fix: a number with a precision above its length was
 read out of bounds

---
 src/tool1cd/BinaryDecimalNumber.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 5ccdd61..5d5ac8c 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -154,17 +154,19 @@ std::string BinaryDecimalNumber::get_presentation() const
 		bool has_significant_digits = false;
 		int max_significant_size = data.size();
 		while (max_significant_size > int_size) {
-			if (data[max_significant_size - 1] == 0) {
+			if (max_significant_size <= 0 || data[max_significant_size - 1] == 0) {
 				max_significant_size--;
 			} else {
 				break;
 			}
 		}
 		for (int i = int_size; i < max_significant_size; i++) {
-			if (data[i] != 0) {
+			// точность может быть больше количества цифр
+			const int digit = i < 0 ? 0 : data[i];
+			if (digit != 0) {
 				has_significant_digits = true;
 			}
-			frac += '0' + data[i];
+			frac += '0' + digit;
 		}
 		if (has_significant_digits) {
 			result += frac;
-- 
2.43.0


From a710a4859badb5ad58f691762b4af296e36d1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 090/129] fix: a negative part number of a file was used as an
 index

---
 src/tool1cd/TableFiles.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/TableFiles.cpp b/src/tool1cd/TableFiles.cpp
index 2bf5d5f..e557b6e 100644
--- a/src/tool1cd/TableFiles.cpp
+++ b/src/tool1cd/TableFiles.cpp
@@ -103,6 +103,9 @@ TableFiles::TableFiles(Table* t)
 
 		if(partno) tr.partno = ToIntDef(record->get_string(partno), 0);
 		else tr.partno = 0;
+		if (tr.partno < 0) {
+			continue;
+		}
 		time1CD_to_FileTime(&tr.ft_create, record->get_data(fld_create));
 		time1CD_to_FileTime(&tr.ft_modify, record->get_data(fld_modify));
 
-- 
2.43.0


From 83608cdbc1ff1ce13b215d7938f16b1faa0e119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 091/129] fix: an unreadable field name terminated the program

---
 src/tool1cd/Table.cpp | 2 +-
 src/tool1cd/Table.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 7a3a9ca..49ed5d1 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2431,7 +2431,7 @@ Field* Table::get_field(const std::string &fieldname) const
 	throw error;
 }
 
-Field* Table::find_field(const std::string &fieldname) const throw()
+Field* Table::find_field(const std::string &fieldname) const
 {
 	for (int32_t j = 0; j < num_fields; j++) {
 		Field* fld = fields[j];
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index 3d96612..ee7fd80 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -181,7 +181,7 @@ public:
 	char* get_record_template_test();
 
 	Field* get_field(const std::string &fieldname) const;
-	Field* find_field(const std::string &fieldname) const throw();
+	Field* find_field(const std::string &fieldname) const;
 	Index* get_index(const std::string &indexname) const;
 	Index* find_index(const std::string &indexname) const throw();
 
-- 
2.43.0


From 9ef4bf871244b87eb7016c830d90134d3b69ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 092/129] fix: blobs whose blocks form a circle were read
 without end

---
 src/tool1cd/Table.cpp    | 16 ++++++++++++++++
 src/tool1cd/V8Object.cpp |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 49ed5d1..f3fea19 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -756,8 +756,16 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 
 		_curb = new char[0x100];
 		_curblock = _startblock;
+		uint64_t blocks_read = 0;
 		while(_curblock)
 		{
+			if(blocks_read++ >= _numblock)
+			{
+				delete[] _curb;
+				throw DetailedException("Блоки файла Blob зациклены")
+					.add_detail("Таблица", name)
+					.add_detail("Всего блоков", _numblock);
+			}
 			if(_curblock >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
@@ -829,8 +837,16 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 
 		_curb = new char[0x100];
 		_curblock = _startblock;
+		uint64_t blocks_read = 0;
 		while(_curblock)
 		{
+			if(blocks_read++ >= _numblock)
+			{
+				delete[] _curb;
+				throw DetailedException("Блоки файла Blob зациклены")
+					.add_detail("Таблица", name)
+					.add_detail("Всего блоков", _numblock);
+			}
 			if(_curblock >= _numblock)
 			{
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 4ecacdc..240eb2d 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1514,8 +1514,16 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 
 	_curb = new char[0x100];
 	_curblock = _startblock;
+	uint64_t blocks_read = 0;
 	while(_curblock)
 	{
+		if(blocks_read++ >= _numblock)
+		{
+			delete[] _curb;
+			throw DetailedException("Блоки файла Blob зациклены")
+				.add_detail("Номер страницы файла", to_hex_string(block))
+				.add_detail("Всего блоков", _numblock);
+		}
 		if(_curblock >= _numblock)
 		{
 			throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
-- 
2.43.0


From 8f4e84e5932e90c32d01eb37f317f1519007882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 093/129] fix: an object longer than its base was read for
 hours

---
 src/tool1cd/Class_1CD.cpp | 6 ++++++
 src/tool1cd/Class_1CD.h   | 1 +
 src/tool1cd/V8Object.cpp  | 4 ++--
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 8304e16..e89244d 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -2212,6 +2212,12 @@ uint32_t T_1CD::get_pagesize() const
 	return pagesize;
 }
 
+//---------------------------------------------------------------------------
+uint64_t T_1CD::get_filesize() const
+{
+	return (uint64_t)length * pagesize;
+}
+
 //---------------------------------------------------------------------------
 TableFiles* T_1CD::get_files_config()
 {
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index f553bdd..7d538cb 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -244,6 +244,7 @@ public:
 	std::string get_filename() const;
 	const boost::filesystem::path &get_filepath() const;
 	uint32_t get_pagesize() const;
+	uint64_t get_filesize() const; // длина базы в байтах
 
 	SupplierConfigs& supplier_configs();
 
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 240eb2d..4fe0b7c 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -141,7 +141,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			} else {
 				numblocks = 0;
 			}
-			if(numblocks > sizeof(t->blocks) / sizeof(t->blocks[0]))
+			if(numblocks > sizeof(t->blocks) / sizeof(t->blocks[0]) || len > base->get_filesize())
 			{
 				const uint64_t bad_len = len;
 				delete t;
@@ -209,7 +209,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		else {
 			numblocks = 0;
 		}
-		if(numblocks > (base->get_pagesize() - offsetof(v838ob_data, blocks)) / sizeof(uint32_t))
+		if(numblocks > (base->get_pagesize() - offsetof(v838ob_data, blocks)) / sizeof(uint32_t) || len > base->get_filesize())
 		{
 			const uint64_t bad_len = len;
 			delete[] b;
-- 
2.43.0


From e05a4147639b60724a2216209bdd3c84111160a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 094/129] fix: an unreadable index name terminated the program

---
 src/tool1cd/Table.cpp | 2 +-
 src/tool1cd/Table.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index f3fea19..805e6cb 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2472,7 +2472,7 @@ Index* Table::get_index(const std::string &indexname) const
 	throw error;
 }
 
-Index* Table::find_index(const std::string &indexname) const throw()
+Index* Table::find_index(const std::string &indexname) const
 {
 	for (int32_t j = 0; j < num_indexes; j++) {
 		Index* ind = indexes[j];
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index ee7fd80..a8d26d4 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -183,7 +183,7 @@ public:
 	Field* get_field(const std::string &fieldname) const;
 	Field* find_field(const std::string &fieldname) const;
 	Index* get_index(const std::string &indexname) const;
-	Index* find_index(const std::string &indexname) const throw();
+	Index* find_index(const std::string &indexname) const;
 
 	V8Object* get_descriptor_table() const;
 	void set_descriptor_table(V8Object *value);
-- 
2.43.0


From 2b23b65193df31ef3938d246efe8a28daa3b1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 095/129] fix: a damaged index page with entries of no length
 was read as thousands of records

---
 src/tool1cd/Index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 35c188d..99c9608 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -152,7 +152,7 @@ void Index::create_recordsindex() const
 			mask = *(uint32_t*)(buf + 14);
 			int32_t rlen = *(int16_t*)(buf + 28);
 			char *rbuf = buf + 30;
-			check_page(rlen >= 0 && (curlen <= 0 || 30 + (int64_t)(curlen - 1) * rlen + (int64_t)sizeof(uint32_t) <= (int64_t)pagesize));
+			check_page(rlen >= 0 && (rlen > 0 || curlen <= 1) && (curlen <= 0 || 30 + (int64_t)(curlen - 1) * rlen + (int64_t)sizeof(uint32_t) <= (int64_t)pagesize));
 			for (int32_t i = 0; i < curlen; i++)
 			{
 				recordsindex.push_back(*(uint32_t*)rbuf & mask);
-- 
2.43.0


From 7f0a35515d4ffb5b9913d7ae0bc4542d0fcc1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 096/129] fix: the export of many blobs of one name took
 quadratic time

---
 src/tool1cd/Table.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 805e6cb..d0a3139 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <map>
 #include <set>
 #include <string>
 #include <boost/filesystem.hpp>
@@ -959,6 +960,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 
 	recname = "";
 	std::set<string> used_names; // уже занятые имена файлов
+	std::map<string, int32_t> next_numbers; // следующий номер для повторного имени
 	bool dircreated = false;
 	boost::filesystem::path dir(_filename + ".blob");
 
@@ -1015,7 +1017,8 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 					}
 					// если индекс не уникальный, имя могло уже встречаться
 					string base_name = outputvalue;
-					for(int32_t n = 2; !used_names.insert(LowerCase(outputvalue)).second; n++)
+					int32_t &n = next_numbers.emplace(LowerCase(base_name), 2).first->second;
+					for(; !used_names.insert(LowerCase(outputvalue)).second; n++)
 					{
 						outputvalue = base_name + "_" + to_string(n);
 					}
-- 
2.43.0


From df52d40548db93fd838389d5231c8d142a929083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 097/129] fix: a negative length of a field was used as its
 length

---
 src/tool1cd/FieldType.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 25a45bc..389ca6e 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -862,12 +862,20 @@ field_type_declaration field_type_declaration::parse_tree(Tree *field_tree)
 		throw FieldStreamParseException("Ошибка получения длины поля таблицы. Узел не является числом.");
 	}
 	type_declaration.length = stoi(field_tree->get_value());
+	if (type_declaration.length < 0) {
+		throw FieldStreamParseException("Неверная длина поля таблицы.")
+				.add_detail("Длина", type_declaration.length);
+	}
 
 	field_tree = field_tree->get_next();
 	if(field_tree->get_type() != node_type::nd_number) {
 		throw FieldStreamParseException("Ошибка получения точности поля таблицы. Узел не является числом.");
 	}
 	type_declaration.precision = stoi(field_tree->get_value());
+	if (type_declaration.precision < 0) {
+		throw FieldStreamParseException("Неверная точность поля таблицы.")
+				.add_detail("Точность", type_declaration.precision);
+	}
 
 	field_tree = field_tree->get_next();
 	if(field_tree->get_type() != node_type::nd_string) {
-- 
2.43.0


From a09cf1b973ee854405c062bd6d08f126bd4e223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 098/129] fix: change of case cut a string at its first zero
 character

---
 src/tool1cd/SystemClasses/String.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index 3ddbbfd..8181538 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -127,9 +127,7 @@ std::string LowerCase(const std::string &src)
 	while (it != eit) {
 		rit = utf8::append(__to_lower(*it++), rit);
 	}
-	result_data.back() = '\0';
-
-	return result_data.data();
+	return string(result_data.data(), rit - result_data.data());
 }
 
 std::string UpperCase(const std::string &src)
@@ -145,9 +143,7 @@ std::string UpperCase(const std::string &src)
 	while (it != eit) {
 		rit = utf8::append(__to_upper(*it++), rit);
 	}
-	result_data.back() = '\0';
-
-	return string(result_data.data());
+	return string(result_data.data(), rit - result_data.data());
 }
 
 int Compare(const std::string &a, const std::string &b)
-- 
2.43.0


From 948c7ffff4b7cea9994c98282329a85acd3069d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 099/129] fix: fields of a table of files were read without a
 check of their types

---
 src/tool1cd/TableFiles.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool1cd/TableFiles.cpp b/src/tool1cd/TableFiles.cpp
index e557b6e..134bffe 100644
--- a/src/tool1cd/TableFiles.cpp
+++ b/src/tool1cd/TableFiles.cpp
@@ -205,6 +205,14 @@ bool TableFiles::test_table()
 			.add_detail("Поле", table->get_field(5)->get_name());
 	}
 
+	if(table->get_field(1)->get_type() != type_fields::tf_datetime
+	|| table->get_field(2)->get_type() != type_fields::tf_datetime
+	|| table->get_field(5)->get_type() != type_fields::tf_image)
+	{
+		throw DetailedException("Ошибка проверки таблицы контейнера файлов. Неверный тип поля")
+			.add_detail("Таблица", table->get_name());
+	}
+
 	if(table->get_num_fields() > 6)
 	{
 		if (CompareIC(table->get_field(6)->get_name(), "PARTNO"))
-- 
2.43.0


From c2b82ba7fd93cef055d3a5e0bc9ab852aec5ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 100/129] fix: a table name with a path separator led the
 export out of the given directory

---
 src/ctool1cd/App.cpp   |  4 ++--
 src/tool1cd/Common.cpp | 14 ++++++++++++++
 src/tool1cd/Common.h   |  3 +++
 src/tool1cd/Table.cpp  |  6 +++---
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 3eb6656..8eda67b 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -84,7 +84,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 
 		tbl->fill_records_index();
 
-		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+		boost::filesystem::path filetable = root_path / (safe_file_name(tbl->get_name()) + ".xml");
 
 		tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 
@@ -150,7 +150,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 		if (b) {
 			tbl->fill_records_index();
 
-			boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+			boost::filesystem::path filetable = root_path / (safe_file_name(tbl->get_name()) + ".xml");
 			tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 			msreg_g.AddMessage("Выполнен экспорт таблицы в файл.", MessageState::Succesfull)
 				.with("Таблица", tbl->get_name())
diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index a14feab..50d481c 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -169,6 +169,20 @@ unsigned char from_hex_digit(char digit)
 	return 0;
 }
 
+string safe_file_name(const string &name)
+{
+	string result(name);
+	for (auto &c : result) {
+		if (c == '/' || c == '\\' || (c >= 0 && c < ' ')) {
+			c = '_';
+		}
+	}
+	if (result.empty() || result == "." || result == "..") {
+		result = "_" + result;
+	}
+	return result;
+}
+
 bool directory_exists(boost::filesystem::path& check_path, bool create_directory) {
 	if(!boost::filesystem::exists(check_path)) {
 		if(create_directory) {
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 0002089..ce89495 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -59,6 +59,9 @@ std::string to_hex_string( T num, bool prefix = true ) {
 	return stream.str();
 }
 
+// имя файла для объекта базы: без разделителей каталогов, не может вывести за пределы каталога
+std::string safe_file_name(const std::string &name);
+
 bool directory_exists(boost::filesystem::path& check_path, bool create_directory = false);
 
 #endif
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d0a3139..5293bfb 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1013,7 +1013,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						if (outputvalue.size()) {
 							outputvalue += "_";
 						}
-						outputvalue += field->get_name();
+						outputvalue += safe_file_name(field->get_name());
 					}
 					// если индекс не уникальный, имя могло уже встречаться
 					string base_name = outputvalue;
@@ -1118,7 +1118,7 @@ changed_rec_type Table::get_rec_type(uint32_t phys_numrecord, int32_t numfield)
 //---------------------------------------------------------------------------
 void Table::export_table(const boost::filesystem::path &path) const
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / safe_file_name(name);
 	if(!directory_exists(dir, true)) {
 		return;
 	}
@@ -1186,7 +1186,7 @@ void Table::import_table(const boost::filesystem::path &path)
 			.add_detail("Таблица", name);
 	}
 
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / safe_file_name(name);
 
 	if(!directory_exists(dir)) {
 		return;
-- 
2.43.0


From 0abe8e83fa31f3943f6da870e4ee3c883c1b71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 101/129] fix: a long key made the export of blobs to files
 fail

---
 src/tool1cd/Table.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 5293bfb..d728e95 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2435,6 +2435,16 @@ std::string Table::get_file_name_for_record(const TableRecord *rec) const
 		s += "_";
 	}
 
+	// имя файла не может быть длиннее 255 байт; к нему еще добавляются имя поля и номер
+	const size_t MAX_NAME_LENGTH = 160;
+	if(s.size() > MAX_NAME_LENGTH) {
+		size_t len = MAX_NAME_LENGTH;
+		while(len > 0 && (s[len] & 0xc0) == 0x80) { // не разрывать символ UTF-8
+			len--;
+		}
+		s.resize(len);
+	}
+
 	return s;
 }
 
-- 
2.43.0


From 0bbbded6686ff57928214925fd3d281bc41cc291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 102/129] fix: special characters of a table filter were taken
 as a regular expression

---
 src/ctool1cd/App.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 8eda67b..6a45a3a 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -106,6 +106,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
+	filter = boost::regex_replace(filter, boost::regex("[.+^$()|\\[\\]{}\\\\]"), "\\\\$&");
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
 	filter = StringReplace(filter, "?", ".", rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
@@ -169,6 +170,7 @@ void App::export_to_binary(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
+	filter = boost::regex_replace(filter, boost::regex("[.+^$()|\\[\\]{}\\\\]"), "\\\\$&");
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
 	filter = StringReplace(filter, "?", ".", rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
@@ -232,6 +234,7 @@ void App::import_from_binary(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
+	filter = boost::regex_replace(filter, boost::regex("[.+^$()|\\[\\]{}\\\\]"), "\\\\$&");
 	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
 	filter = StringReplace(filter, "?", ".", rfReplaceAll);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
-- 
2.43.0


From cfe74cfc07b10d1c355922b463e0ad786c80ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 103/129] fix: names of a container that failed to load pointed
 to deleted files

---
 src/tool1cd/cfapi/V8Catalog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index f062856..51510f1 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -401,6 +401,7 @@ void V8Catalog::initialize()
 			f = f->get_next();
 		}
 		while(first) delete first;
+		files.clear();
 
 		iscatalog = false;
 		iscatalogdefined = true;
-- 
2.43.0


From 09c845faf854d55944d6437fa6469eb7c19c4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 104/129] fix: a write error while a container was being closed
 terminated the program

---
 src/tool1cd/cfapi/V8Catalog.cpp | 64 +++++++++++++++++----------------
 src/tool1cd/cfapi/V8File.cpp    | 49 ++++++++++++++-----------
 2 files changed, 63 insertions(+), 50 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 51510f1..ae757ae 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -723,19 +723,19 @@ V8Catalog::~V8Catalog()
 	Lock->Acquire();
 	_destructed = true;
 
-	f = first;
-	while(f)
+	try
 	{
-		if(!f->get_start_header()) f->open(); // созданный файл, в который ничего не записали
-		f->close();
-		f = f->get_next();
-	}
+		f = first;
+		while(f)
+		{
+			if(!f->get_start_header()) f->open(); // созданный файл, в который ничего не записали
+			f->close();
+			f = f->get_next();
+		}
 
-	if(data)
-	{
-		if(_fatmodified)
+		if(data)
 		{
-			try
+			if(_fatmodified)
 			{
 				fat = new TMemoryStream;
 				elem_addr.fffffff = LAST_BLOCK;
@@ -749,29 +749,27 @@ V8Catalog::~V8Catalog()
 				}
 				write_block(fat, stFileHeader::size(), true);
 			}
-			catch(...)
+			if(is_emptymodified)
 			{
+				data->Seek(0, soFromBeginning);
+				data->WriteBuffer(&file_header.next_page_addr, sizeof(file_header.next_page_addr));
+			}
+			if(is_modified)
+			{
+				file_header.storage_ver++;
+				data->Seek(8, soFromBeginning);
+				data->WriteBuffer(&file_header.storage_ver, sizeof(file_header.storage_ver));
 			}
-			delete fat;
 		}
 	}
-
-	while(first) delete first;
-
-	if(data)
+	catch(const std::exception &ex)
 	{
-		if(is_emptymodified)
-		{
-			data->Seek(0, soFromBeginning);
-			data->WriteBuffer(&file_header.next_page_addr, sizeof(file_header.next_page_addr));
-		}
-		if(is_modified)
-		{
-			file_header.storage_ver++;
-			data->Seek(8, soFromBeginning);
-			data->WriteBuffer(&file_header.storage_ver, sizeof(file_header.storage_ver));
-		}
+		msreg_g.AddError("Ошибка записи контейнера")
+			.with("Ошибка", string(ex.what()));
 	}
+	delete fat;
+
+	while(first) delete first;
 
 	if(file){
 		if(is_modified)
@@ -786,9 +784,15 @@ V8Catalog::~V8Catalog()
 		{
 			if(data && cfu && is_modified)
 			{
-				data->Seek(0, soFromBeginning);
-				cfu->Seek(0, soFromBeginning);
-				ZDeflateStream(data, cfu);
+				try {
+					data->Seek(0, soFromBeginning);
+					cfu->Seek(0, soFromBeginning);
+					ZDeflateStream(data, cfu);
+				}
+				catch(const std::exception &ex) {
+					msreg_g.AddError("Ошибка записи контейнера")
+						.with("Ошибка", string(ex.what()));
+				}
 			}
 			delete data;
 			data = nullptr;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 03a7fbd..3f182a3 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -497,36 +497,38 @@ void V8File::close(){
 	}
 	self = nullptr;
 
+	std::unique_ptr<TStream> old_data(data);
+	bool write_data = _datamodified;
+	bool write_header = is_headermodified;
+	data = nullptr;
+	iscatalog = FileIsCatalog::unknown;
+	is_opened = false;
+	_datamodified = false;
+	is_headermodified = false;
+
 	if(!parent->data_empty()) {
-		if(_datamodified || is_headermodified)
+		if(write_data || write_header)
 		{
 			parent->Acquire();
-			if(_datamodified)
+			if(write_data)
 			{
-				set_start_data(parent->write_datablock(data, start_data, _selfzipped));
+				set_start_data(parent->write_datablock(old_data.get(), start_data, _selfzipped));
 			}
-			if(is_headermodified)
+			if(write_header)
 			{
-				TMemoryStream* hs = new TMemoryStream();
-				_time_create.write_to_stream(hs);
-				_time_modify.write_to_stream(hs);
+				std::unique_ptr<TMemoryStream> hs(new TMemoryStream());
+				_time_create.write_to_stream(hs.get());
+				_time_modify.write_to_stream(hs.get());
 				hs->Write(&zero4b, 4);
 				auto tb = SysUtils::TEncoding::Unicode->fromUtf8(name);
 				hs->Write(tb.data(), tb.size());
 				hs->Write(&zero4b, 4);
 
-				start_header = parent->write_block(hs, start_header, false);
-				delete hs;
+				start_header = parent->write_block(hs.get(), start_header, false);
 			}
 			parent->Release();
 		}
 	}
-	delete data;
-	data = nullptr;
-	iscatalog = FileIsCatalog::unknown;
-	is_opened = false;
-	_datamodified = false;
-	is_headermodified = false;
 	Lock->Release();
 }
 
@@ -554,6 +556,10 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 
 	delete data;
 	data = nullptr;
+	iscatalog = FileIsCatalog::unknown;
+	is_opened = false;
+	_datamodified = false;
+	is_headermodified = false;
 
 	if (!parent->data_empty()) {
 		auto wname = SysUtils::TEncoding::Unicode->fromUtf8(name);
@@ -569,10 +575,6 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 		start_header = parent->write_block(&hs, start_header, false);
 		parent->Release();
 	}
-	iscatalog = FileIsCatalog::unknown;
-	is_opened = false;
-	_datamodified = false;
-	is_headermodified = false;
 	Lock->Release();
 
 	if (Length == -1) return Stream->GetSize();
@@ -590,7 +592,14 @@ V8File::~V8File()
 	}
 	_streams.clear();
 
-	close();
+	try {
+		close();
+	}
+	catch(const std::exception &ex) {
+		msreg_g.AddError("Ошибка записи файла контейнера")
+			.with("Файл", name)
+			.with("Ошибка", string(ex.what()));
+	}
 
 	if(parent)
 	{
-- 
2.43.0


From a0b875bf94052c872b9c0b5ccd5f9ea833b7f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 105/129] fix: a stream that could not be opened again was read
 as empty

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 710fd7a..29c86bb 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -86,6 +86,10 @@ void TFileStream::Reopen()
 		mode |= std::ios::out;
 	}
 	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	if (!_stream->is_open()) {
+		_stream.reset();
+		throw Exception(std::string("Не удалось открыть файл ") + filename);
+	}
 	reopen(_stream);
 }
 
-- 
2.43.0


From 16ab2871500109774d065c16a7a93ffd23115d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 106/129] fix: failures to write the export of a table were not
 reported as errors

---
 src/tool1cd/Table.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d728e95..234b5b1 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -999,7 +999,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						}
 					}
 					catch(...) {
-						msreg_g.AddMessage("Не удалось создать каталог blob", MessageState::Warning)
+						msreg_g.AddMessage("Не удалось создать каталог blob", MessageState::Error)
 							.with("Таблица", name)
 							.with("Путь", dir.string());
 					}
@@ -1156,10 +1156,9 @@ void Table::export_table(const boost::filesystem::path &path) const
 	}
 	else root.has_descr = false;
 
-	try {
+	{
 		TFileStream f(dir / "root", fmCreate|fmShareDenyNone);
 		f.Write(&root, sizeof(export_import_table_root));
-	} catch(...) {
 	}
 
 	if (file_data) {
-- 
2.43.0


From c149c366c18ef4c692416be70f94e456d9c2bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 107/129] fix: read and write errors were taken for data that
 is not packed

---
 src/tool1cd/Field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 7a69b88..6821215 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -314,7 +314,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				delete blob_stream;
 				blob_stream = nullptr;
 			}
-			catch (...)
+			catch (ZError &)
 			{
 				_sx2 = blob_stream;
 				delete _s;
@@ -337,7 +337,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 					delete _sx;
 					_sx = nullptr;
 				}
-				catch (...)
+				catch (ZError &)
 				{
 					_sx2 = _sx;
 					_sx = nullptr;
@@ -386,7 +386,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 						{
 							ZInflateStream(blob_stream, _s2);
 						}
-						catch(...)
+						catch(ZError &)
 						{
 							isOK = false;
 						}
-- 
2.43.0


From b902d2e60e80f4879e00bf7747c2e0ef85aa8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 108/129] fix: errors outside of commands terminated the
 program

---
 src/ctool1cd/App.cpp            |  3 ++-
 src/ctool1cd/cTool_1CD_Main.cpp | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 6a45a3a..a11301a 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -595,7 +595,8 @@ int App::Run()
 
 	boost::filesystem::path dbpath(f);
 	dbpath = boost::filesystem::absolute(dbpath);
-	if (!boost::filesystem::exists(dbpath)) {
+	boost::system::error_code status_error;
+	if (boost::filesystem::status(dbpath, status_error).type() == boost::filesystem::file_not_found) {
 		msreg_g.AddMessage("Указанный файл базы 1CD не существует", MessageState::Error);
 		return CTOOL_1CD_FILE_NOT_EXISTS;
 	}
diff --git a/src/ctool1cd/cTool_1CD_Main.cpp b/src/ctool1cd/cTool_1CD_Main.cpp
index 186b722..de9a0e1 100755
--- a/src/ctool1cd/cTool_1CD_Main.cpp
+++ b/src/ctool1cd/cTool_1CD_Main.cpp
@@ -37,11 +37,16 @@ int main(int argc, char* argv[])
 
 	msreg_g.AddMessageRegistrator(&mess);
 
-	App app(argv, argc, mess);
+	try {
+		App app(argv, argc, mess);
 
-	int result = app.Run();
-	if (result != 0) {
-		return result;
+		int result = app.Run();
+		if (result != 0) {
+			return result;
+		}
+	}
+	catch (const std::exception &ex) {
+		msreg_g.AddError(ex.what());
 	}
 
 	if(mess.has_error)
-- 
2.43.0


From 1bfebe2671ded5376ec6e343a77579ae5a81afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 109/129] fix: times of files in exported configurations and of
 unpacked files were wrong

The conversions between FILETIME and POSIX time lost the high half of the
time, mixed up their units and depended on the time zone.
---
 src/tool1cd/SystemClasses/System.cpp | 38 ++++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.cpp b/src/tool1cd/SystemClasses/System.cpp
index 0653fa8..d65206f 100644
--- a/src/tool1cd/SystemClasses/System.cpp
+++ b/src/tool1cd/SystemClasses/System.cpp
@@ -41,19 +41,18 @@ uint64_t UInt32x32To64(int64_t a, int64_t b)
 // Преобразование времени FILETIME to POSIX
 uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 {
-	// takes the last modified date
-	LARGE_INTEGER date, adjust;
-	date.HighPart = pft -> dwHighDateTime;
-	date.LowPart  = pft -> dwLowDateTime;
+	// 100-nanoseconds since 1601
+	int64_t date = (int64_t)(((uint64_t)pft->dwHighDateTime << 32) | pft->dwLowDateTime);
+	int64_t tick = WINDOWS_TICK;
 
-	// 100-nanoseconds = milliseconds * 10000
-	adjust.QuadPart = SEC_TO_UNIX_EPOCH * 10000;
+	// converts from 100-nanoseconds to seconds, rounding down
+	int64_t seconds = date / tick;
+	if (date % tick < 0) {
+		seconds--;
+	}
 
 	// removes the diff between 1970 and 1601
-	date.QuadPart -= adjust.QuadPart;
-
-	// converts back from 100-nanoseconds to seconds
-	return date.QuadPart / 10000000;
+	return seconds - (int64_t)SEC_TO_UNIX_EPOCH;
 }
 
 //---------------------------------------------------------------------------
@@ -61,13 +60,23 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 void UnixTimeToFileTime(time_t t, System::FILETIME * pft)
 {
 
-	uint64_t ll = UInt32x32To64(t, 10000000) + SEC_TO_UNIX_EPOCH;
+	uint64_t ll = ((int64_t)t + (int64_t)SEC_TO_UNIX_EPOCH) * WINDOWS_TICK;
 
 	pft->dwLowDateTime = (uint32_t)ll;
 	pft->dwHighDateTime = ll >> 32;
 }
 
 
+// время UTC в виде полей в секунды от начала 1970 года
+static time_t utc_to_time(struct tm *utc)
+{
+#ifdef _MSC_VER
+	return _mkgmtime(utc);
+#else
+	return timegm(utc);
+#endif
+}
+
 bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpFileTime)
 {
 	struct tm ttm;
@@ -83,7 +92,7 @@ bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpF
 	ttm.tm_wday  = 0; // возможно здесь что-то не то, надо проверять; days since Sunday - [0, 6] 
 	ttm.tm_yday  = 0; // возможно здесь что-то не то, надо проверять; days since January 1 - [0, 365]
 	
-	UnixTime = mktime(&ttm);
+	UnixTime = utc_to_time(&ttm); // FILETIME и SYSTEMTIME не зависят от часового пояса
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -95,6 +104,7 @@ bool LocalFileTimeToFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	// TODO: реализовать кроссплатформенное преобразование локального системного файлового времени в универсальное (UTC) файловое время
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm *ptm  = gmtime(&rawtime);
+	ptm->tm_isdst = -1;
 	time_t UnixTime = mktime(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 	
@@ -107,7 +117,7 @@ bool FileTimeToLocalFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm * ptm = localtime(&rawtime);
-	time_t UnixTime = mktime(ptm);
+	time_t UnixTime = utc_to_time(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -118,7 +128,7 @@ void GetSystemTime(System::SYSTEMTIME * lpSystemTime)
 {
 	
 	time_t CurrTime = time(NULL);
-	tm *ttm = localtime(&CurrTime);
+	tm *ttm = gmtime(&CurrTime);
 
 	lpSystemTime->wYear   = ttm->tm_year + 1900;
 	lpSystemTime->wMonth  = ttm->tm_mon + 1;
-- 
2.43.0


From 0fe914ec3bc7cf9e157f7d5b8a699b996781e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 110/129] fix: after the import of a table its old records were
 still counted and exported

---
 src/tool1cd/Index.cpp |  2 ++
 src/tool1cd/Table.cpp | 22 ++++++++++++++++++----
 src/tool1cd/Table.h   |  1 +
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 99c9608..d6e83d5 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -368,6 +368,8 @@ uint64_t Index::get_start_offset() const
 void Index::set_start_offset(const uint64_t value)
 {
 	start = value;
+	rootblock = 0;
+	recordsindex_complete = false;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 234b5b1..2dda784 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -145,10 +145,7 @@ void Table::init(int32_t block_descr)
 	Tree* f;
 	Tree* rt;
 	int32_t j;
-	uint32_t m;
-	uint64_t s;
 	int32_t blockfile[3];
-	uint32_t* buf;
 
 	init();
 
@@ -337,6 +334,21 @@ void Table::init(int32_t block_descr)
 		file_index = new V8Object(base, blockfile[2]);
 	}
 
+	init_files(block_descr);
+}
+
+// разбирает заголовок файла индексов и вычисляет количество записей
+void Table::init_files(int32_t block_descr)
+{
+	uint32_t m;
+	uint64_t s;
+	uint32_t* buf;
+
+	recordsindex_complete = false;
+	numrecords_review = 0;
+	numrecords_found = 0;
+	log_numrecords = 0;
+
 	if(num_indexes && !file_index)
 	{
 		throw DetailedException("В таблице есть индексы, однако файл индексов отсутствует.")
@@ -349,7 +361,7 @@ void Table::init(int32_t block_descr)
 		throw DetailedException("В таблице нет индексов, однако присутствует файл индексов.")
 			.add_detail("Блок", to_hex_string(block_descr))
 			.add_detail("Таблица", name)
-			.add_detail("Блок индексов", to_hex_string(blockfile[2]));
+			.add_detail("Блок индексов", to_hex_string(file_index->get_block_number()));
 	}
 	if(file_index)
 	{
@@ -1353,6 +1365,8 @@ void Table::import_table(const boost::filesystem::path &path)
 
 	base->flush();
 
+	init_files(descr_table ? descr_table->get_block_number() : 0);
+
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index a8d26d4..d1ca125 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -214,6 +214,7 @@ private:
 	bool issystem; // Признак системной таблицы (имя таблицы не начинается с подчеркивания)
 	int32_t lockinmemory; // счетчик блокировок в памяти
 
+	void init_files(int32_t block_descr); // разбор файла индексов и подсчет записей, после смены файлов таблицы
 	void delete_fields();
 	void delete_indexes();
 
-- 
2.43.0


From c20e187b5726cb46c2453120f2943b096f12c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 111/129] fix: a table imported with another description was
 read by the old one afterwards

---
 src/tool1cd/Table.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 2dda784..7523881 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1206,6 +1206,7 @@ void Table::import_table(const boost::filesystem::path &path)
 	TFileStream* f;
 	bool fopen;
 	bool descr_changed = false;
+	bool descr_imported = false;
 
 	try
 	{
@@ -1358,6 +1359,8 @@ void Table::import_table(const boost::filesystem::path &path)
 
 			auto data = TEncoding::Unicode->fromUtf8(str);
 			descr_table->set_data(data.data(), data.size());
+			description = str;
+			descr_imported = true;
 
 		}
 
@@ -1365,7 +1368,26 @@ void Table::import_table(const boost::filesystem::path &path)
 
 	base->flush();
 
-	init_files(descr_table ? descr_table->get_block_number() : 0);
+	const int32_t block_descr = descr_table ? descr_table->get_block_number() : 0;
+	if (!descr_imported) {
+		init_files(block_descr);
+		return;
+	}
+
+	// описание таблицы заменено, таблица открывается заново
+	delete_fields();
+	delete_indexes();
+	delete file_data;
+	delete file_blob;
+	delete file_index;
+	try {
+
+		init(block_descr);
+
+	} catch (DetailedException &) {
+		init();
+		throw;
+	}
 
 }
 
-- 
2.43.0


From 6b80da88ca9a329aed16db2359930738f28fd4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:09 +0000
Subject: [PATCH 112/129] fix: configurations exported again after an import in
 the same run were read by outdated lists of files

---
 src/tool1cd/Class_1CD.cpp | 35 ++++++++++++++++++++++++++---------
 src/tool1cd/Class_1CD.h   |  1 +
 src/tool1cd/Table.cpp     |  2 ++
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index e89244d..8986aaa 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -203,15 +203,7 @@ T_1CD::~T_1CD()
 		root_object = nullptr;
 	}
 
-	delete cs_config;
-	delete cs_configsave;
-
-	delete _files_config;
-	delete _files_configsave;
-	delete _files_params;
-	delete _files_files;
-	delete _files_configcas;
-	delete _files_configcassave;
+	forget_files();
 
 	if(tables)
 	{
@@ -2272,6 +2264,31 @@ TableFiles* T_1CD::get_files_configcassave()
 	return _files_configcassave;
 }
 
+//---------------------------------------------------------------------------
+void T_1CD::forget_files()
+{
+	_supplier_configs.clear();
+	supplier_configs_defined = false;
+
+	delete cs_config;
+	cs_config = nullptr;
+	delete cs_configsave;
+	cs_configsave = nullptr;
+
+	delete _files_config;
+	_files_config = nullptr;
+	delete _files_configsave;
+	_files_configsave = nullptr;
+	delete _files_params;
+	_files_params = nullptr;
+	delete _files_files;
+	_files_files = nullptr;
+	delete _files_configcas;
+	_files_configcas = nullptr;
+	delete _files_configcassave;
+	_files_configcassave = nullptr;
+}
+
 //---------------------------------------------------------------------------
 bool T_1CD::save_config_ext(const boost::filesystem::path &file_name, const BinaryGuid &uid, const string &hashname)
 {
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 7d538cb..9aa1ef9 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -247,6 +247,7 @@ public:
 	uint64_t get_filesize() const; // длина базы в байтах
 
 	SupplierConfigs& supplier_configs();
+	void forget_files(); // сбросить прочитанные списки файлов (после изменения таблиц)
 
 	bool get_block(void* buf, uint32_t block_number, int32_t blocklen = -1); // буфер принадлежит вызывающей процедуре
 	char* get_block(uint32_t block_number) const; // буфер не принадлежит вызывающей стороне (принадлежит memblock)
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 7523881..00f0ee0 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1242,6 +1242,8 @@ void Table::import_table(const boost::filesystem::path &path)
 		}
 	}
 
+	base->forget_files(); // списки файлов, прочитанные из прежних данных таблицы
+
 	if(root.has_data) {
 		fopen = false;
 		try
-- 
2.43.0


From 1008a4e8f05d6f4d05d2b85762d50cdbba939784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:48 +0000
Subject: [PATCH 113/129] fix: a directory at the path of an exported
 configuration was deleted with all it holds

---
 src/tool1cd/ConfigStorage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 4f2ee5b..2214161 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -519,8 +519,13 @@ bool ConfigStorageTable::save_config(const boost::filesystem::path &file_name)
 		return false;
 	}
 
+	if(boost::filesystem::is_directory(file_name)) {
+		msreg_g.AddError("Указанный путь является каталогом.").with("Файл", file_name.string());
+		return false;
+	}
+
 	if(boost::filesystem::exists(file_name)) {
-		boost::filesystem::remove_all(file_name);
+		boost::filesystem::remove(file_name);
 	}
 
 	size_t prevj = 101;
-- 
2.43.0


From f637bcc5b29c1dd94a97fed7ea8aaed218e98772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:48 +0000
Subject: [PATCH 114/129] fix: a directory or a device given as the log file
 was deleted

---
 src/tool1cd/Messenger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index d6711b8..11fa2af 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -74,7 +74,8 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 void Messenger::setlogfile(const string &_logfile)
 {
 	logfile = System::Ioutils::TPath::GetFullPath(_logfile);
-	if(FileExists(logfile)) DeleteFile(logfile);
+	boost::system::error_code error;
+	if(boost::filesystem::is_regular_file(logfile, error)) DeleteFile(logfile);
 }
 
 void Messenger::set_log_level(const MessageState _minimal_state)
-- 
2.43.0


From 8f4f954d00445800a18f798d4d8197f582dd036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:48 +0000
Subject: [PATCH 115/129] fix: messages were lost when the log file could not
 be opened

---
 src/tool1cd/Messenger.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index 11fa2af..358fd67 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -59,7 +59,12 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 	shared_ptr<ostream> output (&cerr, [](...){} );
 
 	if (!logfile.empty()) {
-		output = make_shared<boost::filesystem::ofstream>(boost::filesystem::path(logfile), std::ios_base::app);
+		auto log = make_shared<boost::filesystem::ofstream>(boost::filesystem::path(logfile), std::ios_base::app);
+		if (log->is_open()) {
+			output = log;
+		} else if (noverbose) {
+			return;
+		}
 	}
 	*output << message << endl;
 	if (param) {
-- 
2.43.0


From da455eb1887488b27a5fbe3c33708dfec3823e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 116/129] fix: the last character of the first line was cut off
 in the tree of a bracket text

---
 src/gtool1cd/models/skobka_tree_model.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gtool1cd/models/skobka_tree_model.cpp b/src/gtool1cd/models/skobka_tree_model.cpp
index d0d48b9..ae47fa0 100644
--- a/src/gtool1cd/models/skobka_tree_model.cpp
+++ b/src/gtool1cd/models/skobka_tree_model.cpp
@@ -114,7 +114,10 @@ QString trim_item_presentation(const QString &full_presentation)
 	{
 		int k = result.indexOf('\n');
 		if (k != -1) {
-			result = result.left(k - 1);
+			result = result.left(k);
+			if (result.endsWith('\r')) {
+				result.chop(1);
+			}
 		}
 	}
 	if (result.size() > MAX_PRESENTATION_LEN) {
-- 
2.43.0


From 4b025d2f169501477abea1157b13c5f258eab0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 117/129] fix: sizes of tables of 2 GiB and more were shown
 wrong or ended gtool1cd

---
 src/gtool1cd/models/tables_list_model.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gtool1cd/models/tables_list_model.cpp b/src/gtool1cd/models/tables_list_model.cpp
index b5e2010..caddbce 100644
--- a/src/gtool1cd/models/tables_list_model.cpp
+++ b/src/gtool1cd/models/tables_list_model.cpp
@@ -20,7 +20,7 @@
 */
 #include "tables_list_model.h"
 
-static int object_size(/*const */V8Object *file)
+static uint64_t object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
 		return 0;
@@ -28,16 +28,16 @@ static int object_size(/*const */V8Object *file)
 	return file->get_len();
 }
 
-QString human_size(size_t size_in_bytes)
+QString human_size(uint64_t size_in_bytes)
 {
-	size_t modified_size = size_in_bytes;
+	uint64_t modified_size = size_in_bytes;
 	QVector<QString> suffix = {QObject::tr("B"), QObject::tr("KiB"),
 	                           QObject::tr("MiB"), QObject::tr("GiB"),
 	                           QObject::tr("TiB")};
-	size_t frac_part = 0;
+	uint64_t frac_part = 0;
 	int suffix_index = 0;
-	while (suffix_index < suffix.size() && modified_size > 1000) {
-		size_t new_value = modified_size >> 10;
+	while (suffix_index < suffix.size() - 1 && modified_size > 1000) {
+		uint64_t new_value = modified_size >> 10;
 		frac_part = modified_size - (new_value << 10);
 		suffix_index++;
 		modified_size = new_value;
-- 
2.43.0


From ed6e4cc7eef6e0d41ceca1ad643e0c6cc8a6dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 118/129] fix: one-byte texts were shown as two-byte ones by
 gtool1cd

---
 src/gtool1cd/models/table_data_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gtool1cd/models/table_data_model.cpp b/src/gtool1cd/models/table_data_model.cpp
index b9386b9..19eaf9e 100644
--- a/src/gtool1cd/models/table_data_model.cpp
+++ b/src/gtool1cd/models/table_data_model.cpp
@@ -104,7 +104,8 @@ QVariant TableDataModel::data(const QModelIndex &index, int role) const
 			}
 			TMemoryStream *mem = new TMemoryStream;
 			mem->CopyFrom(data_stream, 0);
-			if (f->get_type() == type_fields::tf_image) {
+			if (f->get_type() == type_fields::tf_image
+			        || f->get_type() == type_fields::tf_text) {
 				return QString::fromStdString(TEncoding::UTF8->toUtf8(mem->GetBytes()));
 			} else {
 				return QString::fromStdString(TEncoding::Unicode->toUtf8(mem->GetBytes()));
-- 
2.43.0


From 8a0a351db1bad0130b806aec2d8742f728324e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 119/129] fix: a base with an index file of 4 GiB or more could
 not be opened

---
 src/tool1cd/Table.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 00f0ee0..7e67b2e 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -340,7 +340,7 @@ void Table::init(int32_t block_descr)
 // разбирает заголовок файла индексов и вычисляет количество записей
 void Table::init_files(int32_t block_descr)
 {
-	uint32_t m;
+	uint64_t m;
 	uint64_t s;
 	uint32_t* buf;
 
@@ -377,7 +377,7 @@ void Table::init_files(int32_t block_descr)
 			buf = new uint32_t[num_indexes + 1];
 			file_index->get_data(buf, 0, buflen);
 
-			if(buf[0] * base->get_pagesize() >= file_index->get_len())
+			if((uint64_t)buf[0] * base->get_pagesize() >= file_index->get_len())
 			{
 				throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
 					.add_detail("Таблица", name)
-- 
2.43.0


From af320f5b1c15f895aa46ec94d9f1b24cef376bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:44 +0000
Subject: [PATCH 120/129] fix: the shown value of a cell stayed the same after
 "no index" was chosen in a table window

---
 src/gtool1cd/table_data_window.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gtool1cd/table_data_window.cpp b/src/gtool1cd/table_data_window.cpp
index 71d6673..7b7de31 100644
--- a/src/gtool1cd/table_data_window.cpp
+++ b/src/gtool1cd/table_data_window.cpp
@@ -118,11 +118,11 @@ void TableDataWindow::on_indexChooseBox_activated(int index)
 	if (index == 0) {
 		// без индекса
 		ui->dataView->setModel(new TableDataModel(table));
-		return;
+	} else {
+		QString index_name = ui->indexChooseBox->itemData(index).toString();
+		Index *table_index = table->get_index(index_name.toStdString());
+		ui->dataView->setModel(new TableDataModel(table, table_index));
 	}
-	QString index_name = ui->indexChooseBox->itemData(index).toString();
-	Index *table_index = table->get_index(index_name.toStdString());
-	ui->dataView->setModel(new TableDataModel(table, table_index));
 
 	connect(ui->dataView->selectionModel(), SIGNAL(selectionChanged(QItemSelection,QItemSelection)),
 	        this, SLOT(dataView_selection_changed(QItemSelection)));
-- 
2.43.0


From d35544323e19ad6c1a96caa698d5aee008325769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 121/129] fix: values that only begin like packed data were
 shown and exported as the few bytes they unpack to

---
 src/gtool1cd/models/table_data_model.cpp |  2 +-
 src/tool1cd/Field.cpp                    |  4 ++--
 src/tool1cd/UZLib.cpp                    | 14 +++++++++++++-
 src/tool1cd/UZLib.h                      |  2 ++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/gtool1cd/models/table_data_model.cpp b/src/gtool1cd/models/table_data_model.cpp
index 19eaf9e..4c15252 100644
--- a/src/gtool1cd/models/table_data_model.cpp
+++ b/src/gtool1cd/models/table_data_model.cpp
@@ -195,7 +195,7 @@ int inflate_stream(TStream* &stream)
 		TStream *unpacked_stream = new_stream(stream->GetSize());
 		stream->SetPosition(0);
 		try {
-			ZInflateStream(stream, unpacked_stream);
+			ZInflateWhole(stream, unpacked_stream);
 		} catch (ZError &) {
 			return counter;
 		}
diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 6821215..5c68360 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -306,7 +306,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			try
 			{
 				blob_stream->Seek(0, soFromBeginning);
-				ZInflateStream(blob_stream, _s);
+				ZInflateWhole(blob_stream, _s);
 				zipped = true;
 				if(maybezipped_twice) _sx = _s;
 				else _sx2 = _s;
@@ -330,7 +330,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				try
 				{
 					_sx->Seek(0, soFromBeginning);
-					ZInflateStream(_sx, _s2);
+					ZInflateWhole(_sx, _s2);
 					zippedContainer = true;
 					_sx2 = _s2;
 					_s2 = nullptr;
diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 4a78c59..4cc833d 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -156,6 +156,9 @@ void ZInflateStream(TStream* src, TStream* dst)
 		/* done when inflate() says it's done */
 	} while (ret != Z_STREAM_END);
 
+	/* src остаётся сразу за сжатыми данными */
+	src->Seek(-static_cast<int64_t>(strm.avail_in), soFromCurrent);
+
 	/* clean up and return */
 	(void)inflateEnd(&strm);
 
@@ -165,12 +168,21 @@ void ZInflateStream(TStream* src, TStream* dst)
 }
 
 
+void ZInflateWhole(TStream *src, TStream *dst)
+{
+	ZInflateStream(src, dst);
+	if (src->Seek(0, soFromCurrent) != src->GetSize()) {
+		throw ZError( "Compressed data is followed by other data" );
+	}
+}
+
+
 void ZInflateOrCopy(TStream *src, TStream *dst)
 {
 	const auto dst_start = dst->GetPosition();
 	try {
 
-		ZInflateStream(src, dst);
+		ZInflateWhole(src, dst);
 
 	} catch (ZError &) {
 		// распакованное до ошибки отбрасывается
diff --git a/src/tool1cd/UZLib.h b/src/tool1cd/UZLib.h
index b410c99..e8a32f5 100644
--- a/src/tool1cd/UZLib.h
+++ b/src/tool1cd/UZLib.h
@@ -148,6 +148,8 @@ class ZInflateStream : ZStreamBase
 
 
 void ZInflateStream(TStream* src, TStream* dst);
+// как ZInflateStream, но сжатые данные должны занимать поток до конца
+void ZInflateWhole(TStream *src, TStream *dst);
 bool ZDeflateStream(TStream* src, TStream* dst);
 
 void ZInflateOrCopy(TStream *src, TStream *dst);
-- 
2.43.0


From bc4bd2cf4a27a40974b36164cb9319914f5b4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:20 +0000
Subject: [PATCH 122/129] fix: a failing export or import of BLOBs ended
 gtool1cd

---
 src/gtool1cd/mainwindow.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gtool1cd/mainwindow.cpp b/src/gtool1cd/mainwindow.cpp
index 115b67e..146f2d4 100644
--- a/src/gtool1cd/mainwindow.cpp
+++ b/src/gtool1cd/mainwindow.cpp
@@ -21,6 +21,7 @@
 #include "mainwindow.h"
 #include "ui_mainwindow.h"
 #include <QFileDialog>
+#include <QMessageBox>
 #include <QDebug>
 #include <QStringListModel>
 #include "starter.h"
@@ -86,7 +87,11 @@ void MainWindow::export_blob_file()
 	
 	for (auto &index : indexes) {
 		Table *t = db->get_table(index.row());
-		t->export_table(boost::filesystem::path(dir.toStdWString()));
+		try {
+			t->export_table(boost::filesystem::path(dir.toStdWString()));
+		} catch (const std::exception &exc) {
+			QMessageBox::warning(this, tr("Экспорт BLOB"), QString(exc.what()));
+		}
 	}
 }
 
@@ -104,7 +109,11 @@ void MainWindow::import_blob_file()
 	boost::filesystem::path rootpath(dir.toStdWString());
 	for (auto &index : indexes) {
 		Table *t = db->get_table(index.row());
-		t->import_table(rootpath);
+		try {
+			t->import_table(rootpath);
+		} catch (const std::exception &exc) {
+			QMessageBox::warning(this, tr("Импорт BLOB"), QString(exc.what()));
+		}
 	}
 }
 
-- 
2.43.0


From f5246fdf3b67992606ba5e8030a3790a56ae0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 123/129] fix: Page Up near the beginning moved the cursor of
 the hex viewer out of the value

---
 src/gtool1cd/QHexEdit/qhexview.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gtool1cd/QHexEdit/qhexview.cpp b/src/gtool1cd/QHexEdit/qhexview.cpp
index 1f9dafc..d23fcf2 100644
--- a/src/gtool1cd/QHexEdit/qhexview.cpp
+++ b/src/gtool1cd/QHexEdit/qhexview.cpp
@@ -474,7 +474,7 @@ bool QHexView::processMove(QHexCursor *cur, QKeyEvent *e)
     {
         if(!cur->currentLine()) return true;
 
-        quint64 pageline = std::max(quint64(0), cur->currentLine() - this->visibleLines());
+        quint64 pageline = cur->currentLine() - std::min(cur->currentLine(), this->visibleLines());
 
         if(e->matches(QKeySequence::MoveToPreviousPage)) cur->moveTo(pageline, cur->currentColumn());
         else cur->select(pageline, cur->currentColumn());
-- 
2.43.0


From 6f4da64c09acb4061702ba794e7430948dbd0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 124/129] fix: Ctrl+Home and Ctrl+End did nothing in the first
 and last line of the hex viewer

---
 src/gtool1cd/QHexEdit/qhexview.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/gtool1cd/QHexEdit/qhexview.cpp b/src/gtool1cd/QHexEdit/qhexview.cpp
index d23fcf2..8eee568 100644
--- a/src/gtool1cd/QHexEdit/qhexview.cpp
+++ b/src/gtool1cd/QHexEdit/qhexview.cpp
@@ -481,15 +481,11 @@ bool QHexView::processMove(QHexCursor *cur, QKeyEvent *e)
     }
     else if(e->matches(QKeySequence::MoveToStartOfDocument) || e->matches(QKeySequence::SelectStartOfDocument))
     {
-        if(!cur->currentLine()) return true;
-
         if(e->matches(QKeySequence::MoveToStartOfDocument)) cur->moveTo(0, 0);
         else cur->select(0, 0);
     }
     else if(e->matches(QKeySequence::MoveToEndOfDocument) || e->matches(QKeySequence::SelectEndOfDocument))
     {
-        if(m_renderer->documentLastLine() == cur->currentLine()) return true;
-
         if(e->matches(QKeySequence::MoveToEndOfDocument)) cur->moveTo(m_renderer->documentLastLine(), m_renderer->documentLastColumn());
         else cur->select(m_renderer->documentLastLine(), m_renderer->documentLastColumn());
     }
-- 
2.43.0


From f69de322fc782c239dd9b8cfdd80f4ecb872d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 125/129] fix: Left after Right left a different position in
 the hex viewer, and a byte selected

---
 src/gtool1cd/QHexEdit/qhexview.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gtool1cd/QHexEdit/qhexview.cpp b/src/gtool1cd/QHexEdit/qhexview.cpp
index 8eee568..cd7c38c 100644
--- a/src/gtool1cd/QHexEdit/qhexview.cpp
+++ b/src/gtool1cd/QHexEdit/qhexview.cpp
@@ -344,8 +344,7 @@ void QHexView::movePrevious(bool select)
 
     if((m_renderer->selectedArea() == QHexRenderer::HexArea))
     {
-        nibbleindex--;
-        nibbleindex %= 2;
+        nibbleindex = !nibbleindex;
         if(!nibbleindex) column--;
     }
     else
-- 
2.43.0


From 723ba50731d449af9c7f47ea0c0209e7583b65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 126/129] fix: select all did not select a value of one byte in
 the hex viewer

---
 src/gtool1cd/QHexEdit/qhexview.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gtool1cd/QHexEdit/qhexview.cpp b/src/gtool1cd/QHexEdit/qhexview.cpp
index cd7c38c..14cb4cb 100644
--- a/src/gtool1cd/QHexEdit/qhexview.cpp
+++ b/src/gtool1cd/QHexEdit/qhexview.cpp
@@ -375,7 +375,7 @@ bool QHexView::processAction(QHexCursor *cur, QKeyEvent *e)
        if(e->matches(QKeySequence::SelectAll))
        {
            m_document->cursor()->moveTo(0, 0);
-           m_document->cursor()->select(m_renderer->documentLastLine(), m_renderer->documentLastColumn() - 1);
+           m_document->cursor()->select(m_renderer->documentLastLine(), m_renderer->documentLastColumn() - 1, 0);
        }
        else if(e->matches(QKeySequence::Undo))
            m_document->undo();
-- 
2.43.0


From 044ae6078bec841d5fbc29e26d14dc23d8471227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 127/129] fix: undoing a replacement past the end of a value
 left its last bytes in the hex viewer

---
 src/gtool1cd/QHexEdit/document/commands/replacecommand.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gtool1cd/QHexEdit/document/commands/replacecommand.cpp b/src/gtool1cd/QHexEdit/document/commands/replacecommand.cpp
index 3631237..bfc8fcc 100644
--- a/src/gtool1cd/QHexEdit/document/commands/replacecommand.cpp
+++ b/src/gtool1cd/QHexEdit/document/commands/replacecommand.cpp
@@ -6,7 +6,11 @@ ReplaceCommand::ReplaceCommand(QHexBuffer *buffer, qint64 offset, const QByteArr
     m_data = data;
 }
 
-void ReplaceCommand::undo() { m_buffer->replace(m_offset, m_olddata); }
+void ReplaceCommand::undo()
+{
+    m_buffer->remove(m_offset, m_data.length());
+    m_buffer->insert(m_offset, m_olddata);
+}
 
 void ReplaceCommand::redo()
 {
-- 
2.43.0


From 28c4d0540e82946919501638349c3a21c291fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:11 +0000
Subject: [PATCH 128/129] fix: Delete did nothing at the first byte in the hex
 viewer

---
 src/gtool1cd/QHexEdit/qhexview.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gtool1cd/QHexEdit/qhexview.cpp b/src/gtool1cd/QHexEdit/qhexview.cpp
index 14cb4cb..65c82f7 100644
--- a/src/gtool1cd/QHexEdit/qhexview.cpp
+++ b/src/gtool1cd/QHexEdit/qhexview.cpp
@@ -399,7 +399,7 @@ bool QHexView::processAction(QHexCursor *cur, QKeyEvent *e)
        {
            const QHexPosition& pos = cur->position();
 
-           if(pos.offset() <= 0)
+           if((e->key() == Qt::Key_Backspace) && (pos.offset() <= 0))
                return true;
 
            if(e->key() == Qt::Key_Backspace)
-- 
2.43.0


From 5f382fc590cb037513bd65dde83ea41484c07e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:11 +0000
Subject: [PATCH 129/129] fix: keys over a selection in the hex viewer changed
 the bytes behind it

---
 src/gtool1cd/QHexEdit/document/qhexdocument.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gtool1cd/QHexEdit/document/qhexdocument.cpp b/src/gtool1cd/QHexEdit/document/qhexdocument.cpp
index 056df4f..9bb36e4 100644
--- a/src/gtool1cd/QHexEdit/document/qhexdocument.cpp
+++ b/src/gtool1cd/QHexEdit/document/qhexdocument.cpp
@@ -52,8 +52,9 @@ void QHexDocument::removeSelection()
     if(!m_cursor->hasSelection())
         return;
 
-    this->remove(m_cursor->selectionStart().offset(), m_cursor->selectionLength());
-    m_cursor->clearSelection();
+    const QHexPosition start = m_cursor->selectionStart();
+    this->remove(start.offset(), m_cursor->selectionLength());
+    m_cursor->moveTo(start.line, start.column);
 }
 
 QByteArray QHexDocument::selectedBytes() const
-- 
2.43.0

