from registry import prop, IMG, SAN

REAL = "Calls the real functions and compares with an independent reference on every input of the enumerated space."

prop("U01", "Texts in braces are parsed to the tree they denote, and written back",
     "A text (or a stream, with or without a UTF-8 mark) of values separated by commas - lists in braces, strings in quotes with doubled inner quotes, and plain values up to the next comma or brace - is parsed to exactly the tree it denotes: number, order, nesting, values and types (empty, string, number, number with fraction or exponent, GUID, list, #base64:, #data:, link n:32 hex digits, bare base64). Spaces, tabs and line breaks around values are ignored; nothing between two commas, or between a comma and the closing brace, is an empty value. Elements are reachable by index and in sequence. A text with an unclosed list or string, an unopened brace, a missing comma or a value of no known type is rejected with an error. Writing the first element of a tree as text gives the documented form, and parsing that text gives the same tree again.",
     ["inputs"], "all texts up to the length bound over structural, numeric and value alphabets, every single-character change of long values, every byte in every place, deep and wide trees",
     "The tests parse a handful of correct texts.",
     ["src/tool1cd/Parse_tree.cpp", "src/tool1cd/Parse_tree.h"],
     [("parser", "Parse_tree.cpp parse_1Ctext, parse_1Cstream"), ("value types", "Parse_tree.cpp classification_value"), ("writing", "Parse_tree.cpp outtext")],
     "h_codec", "all texts of up to 6 of 9 structural characters, up to 6 of 5 list characters, 5 of 6 numeric, 4 of 10 value characters; 17 changes at every place of 5 long values; 255 bytes in 8 places", "texts one or two characters longer",
     "Bounded-exhaustive enumeration of input texts; a recursive-descent reference computes the tree or the rejection. " + REAL, assumptions=[SAN])

prop("U02", "Packing, base64, hex, UTF, case and CRC conversions are exact",
     "ZDeflateStream packs any content so that inflating gives it back; ZInflateStream gives exactly the content of an intact raw deflate stream and throws on a damaged or truncated one; ZInflateOrCopy gives the inflated content of an intact stream that takes up the whole input, and otherwise exactly the input. Base64 encoding follows the standard with the requested line length (as UTF-16 text) and decoding accepts its result in UTF-16 and 8-bit form, with spaces and line breaks anywhere. Hex digits, hex strings, XML escaping (& < > ' and double quote), CRC-32 of a whole stream, UTF-8 to UTF-16 conversion of every character and back, byte order marks, replacement in strings, and letter case of Latin and Russian letters (LowerCase, UpperCase, EqualIC, EndsWithIC) are exact; no input makes them throw.",
     ["inputs"], "all contents at sizes around the 16 KiB buffers, all two-byte streams, every cut and byte change of packed data, all base64 lengths and line lengths, all Unicode characters, all short strings of the alphabets",
     "The tests convert single examples.",
     ["src/tool1cd/UZLib.cpp", "src/tool1cd/Base64.cpp", "src/tool1cd/CRC32.cpp", "src/tool1cd/Common.cpp", "src/tool1cd/SystemClasses/String.cpp", "src/tool1cd/SystemClasses/System.SysUtils.cpp"],
     [("packing", "UZLib.cpp"), ("base64", "Base64.cpp"), ("text", "SystemClasses/String.cpp, System.SysUtils.cpp"), ("hex, XML", "Common.cpp")],
     "h_codec", "15 sizes x 3 contents x 4 levels with cuts and inversions; half of all 2-byte inputs; 52 byte values at each of ~90 places; 1,400 base64 contents x 5 line lengths; 1,112,064 characters", "27 sizes up to 5 MB, all 2-byte inputs, all byte values",
     "Bounded-exhaustive enumeration; references are zlib called directly, the standard definitions and hand-written converters. " + REAL, assumptions=[SAN])

prop("U03", "GUIDs, packed decimals and dates convert both ways without loss",
     "The sixteen bytes of a GUID appear in the 1C form (bytes 12-15, 10-11, 8-9, 0-1, 2-7) and the Microsoft form (first three fields little-endian) exactly; the 1C form and 32 bare hex digits, in any case, are read back to the same bytes, a text of another length is refused and leaves the result alone; comparison is that of the bytes. A packed decimal of any length, precision and sign is presented as its value without superfluous zeroes, is written back as the same bytes, and a number given as text is stored as the same bytes. A packed date appears as yyyymmddhhmmss and dd.mm.yyyy hh:mm:ss, gives its components, and is read back from both forms. ToIntDef reads every 32-bit number and gives the default for anything else.",
     ["inputs"], "every value of every GUID byte, all decimals up to the length bound with all precisions and signs, all months, days, hours with the alphabet of years and minutes, all numbers up to 100000 and the limits",
     "The tests convert a few values.",
     ["src/tool1cd/BinaryGuid.cpp", "src/tool1cd/BinaryDecimalNumber.cpp", "src/tool1cd/Common.cpp", "src/tool1cd/SystemClasses/System.SysUtils.cpp"],
     [("GUID", "BinaryGuid.cpp"), ("decimals and dates", "BinaryDecimalNumber.cpp"), ("date text", "Common.cpp")],
     "h_codec", "16 x 256 x 2 GUIDs, 6,400 comparisons; decimals of up to 5 digits (every 7th of the longest); 131,000 dates; 200,000 numbers", "decimals of up to 6 digits",
     "Bounded-exhaustive enumeration with directly computed references. Unsigned one-digit numbers, which no base contains, are left out. " + REAL, assumptions=[SAN])

prop("U04", "Memory, temporary and file streams behave as one byte sequence",
     "For a memory stream, a temporary stream, a file stream and a byte stream, every sequence of Write, Read, Seek, SetPosition, SetSize, CopyFrom and WriteString leaves the same size, position and contents as on a plain byte string: Read returns the bytes there are, Write past the end fills with zeroes, Seek moves to 0..size and throws (leaving the position alone) otherwise, SetSize shortens or lengthens and pulls the position back to the end, CopyFrom(x, 0) copies all of x from its beginning and CopyFrom(x, n) the next n bytes of x. A file stream closed and used again continues where it was; a missing file is not created by opening. Bytes that come back when a file stream grows after having been shortened are not specified.",
     ["histories"], "all sequences of operations up to the depth, from an empty and from a filled stream, for all four kinds of stream",
     "The tests use streams in one or two fixed orders.",
     ["src/tool1cd/SystemClasses/TStream.cpp", "src/tool1cd/SystemClasses/TMemoryStream.cpp", "src/tool1cd/SystemClasses/TFileStream.cpp", "src/tool1cd/TempStream.cpp"],
     [("base class", "SystemClasses/TStream.cpp"), ("memory", "SystemClasses/TMemoryStream.cpp"), ("files", "SystemClasses/TFileStream.cpp, TempStream.cpp")],
     "h_codec", "25 operations in all sequences of up to 3 (memory: 4) x 2 starting contents x 4 kinds; copies of up to 1 MB", "sequences of up to 4 (memory: 5)",
     "Explores every operation sequence on the real streams beside a byte-string model and compares after each step. " + REAL, assumptions=[SAN])
