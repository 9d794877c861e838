From 8dc3f6cc6b0bfbbed5cf1f90d996f87135e7faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 01/58] fix: avoid signed overflow when converting the most
 negative 64-bit integer to text

---
 convert/convert_int.cpp      | 4 ++--
 json/json_serializer.cpp     | 2 +-
 sync/sync_tls.cpp            | 2 +-
 templates/static_mixed_var.h | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 1712940..8afe4e8 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -50,7 +50,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return ToString(Result + 1, Size - 1, (std::uint64_t)-Num, Separator, Radix);
+			return ToString(Result + 1, Size - 1, 0 - (std::uint64_t)Num, Separator, Radix);
 		}
 
 		bool Int::ToFilesizeString(char *Result, size_t Size, std::uint64_t Num, size_t NumFrac, char NumSeparator, char DecimalSeparator, char UnitSeparator, const char *BytesUnit)
@@ -220,7 +220,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return ToFilesizeString(Result + 1, Size - 1, (std::uint64_t)-Num, NumFrac, NumSeparator, DecimalSeparator, UnitSeparator, BytesUnit);
+			return ToFilesizeString(Result + 1, Size - 1, 0 - (std::uint64_t)Num, NumFrac, NumSeparator, DecimalSeparator, UnitSeparator, BytesUnit);
 		}
 	}
 }
diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 231a791..32087de 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -429,7 +429,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num);
+			return IntToString(Result + 1, Size - 1, 0 - (std::uint64_t)Num);
 		}
 	}
 }
diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a484111..62f69c3 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -474,7 +474,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num, Radix);
+			return IntToString(Result + 1, Size - 1, 0 - (std::uint64_t)Num, Radix);
 		}
 	}
 }
diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index d1d060c..1a9f1f7 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -310,7 +310,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num, Radix);
+			return IntToString(Result + 1, Size - 1, 0 - (std::uint64_t)Num, Radix);
 		}
 	};
 }
-- 
2.43.0


From ae5777ec0a8d5e5108c393aaaed7c7ea2c12d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:39 +0000
Subject: [PATCH 02/58] fix: generate file size fraction digits without 64-bit
 overflow or size wraparound

---
 convert/convert_int.cpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 8afe4e8..454a2ea 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -161,27 +161,18 @@ namespace CubicleSoft
 
 			if (NumFrac)
 			{
-				if (x < NumFrac + 2)  return false;
+				if (x < 2 || x - 2 < NumFrac)  return false;
 
+				// Generate one digit at a time to avoid overflowing 64-bit arithmetic.
 				Extra = Num % Divider;
-				for (x2 = 0; x2 < NumFrac; x2++)  Extra *= 10ULL;
-				Extra /= Divider;
-
-				while (Extra && NumFrac && x)
+				for (x2 = NumFrac; x2; x2--)
 				{
-					Result[--x] = (char)(Extra % 10) + '0';
-					Extra /= 10;
-					NumFrac--;
+					Extra *= 10ULL;
+					Result[x - x2] = (char)(Extra / Divider) + '0';
+					Extra %= Divider;
 				}
 
-				while (NumFrac && x)
-				{
-					Result[--x] = '0';
-					NumFrac--;
-				}
-
-				if (Extra || !x)  return false;
-
+				x -= NumFrac;
 				Result[--x] = DecimalSeparator;
 
 				if (!x)  return false;
-- 
2.43.0


From 11d424d5f327d129312a5316d83dc8d671dc1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 03/58] fix: JSON serializer dropped slashes from strings when
 slash escaping is off

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 32087de..c792370 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -357,7 +357,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
@@ -381,7 +381,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
-- 
2.43.0


From 1f594a7f27c8b9077bc1c672bce83f93fbdc7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 04/58] fix: JSON serializer measured a sized string by its
 first byte only, overflowing the buffer

---
 json/json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index c792370..11d9195 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -315,6 +315,7 @@ namespace CubicleSoft
 				}
 
 				Result++;
+				Val++;
 				Size--;
 			}
 
-- 
2.43.0


From 2eb7744e765453286598bc8b57262aba89bfd8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:11 +0000
Subject: [PATCH 05/58] fix: JSON serializer wrote raw control characters into
 strings, which is not valid JSON

---
 json/json_serializer.cpp | 58 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 11d9195..d04a768 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -275,6 +275,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters are written as \u00XX.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -312,6 +320,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters are written as \u00XX.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -364,7 +380,26 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:
+					{
+						if ((std::uint8_t)*Val < 0x20)
+						{
+							MxBuffer[MxBufferPos++] = '\\';
+							MxBuffer[MxBufferPos++] = 'u';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = (*Val & 0x10 ? '1' : '0');
+							MxBuffer[MxBufferPos++] = "0123456789abcdef"[*Val & 0x0F];
+						}
+						else
+						{
+							MxBuffer[MxBufferPos++] = *Val;
+						}
+
+						Val++;
+
+						break;
+					}
 				}
 			}
 
@@ -388,7 +423,26 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:
+					{
+						if ((std::uint8_t)*Val < 0x20)
+						{
+							MxBuffer[MxBufferPos++] = '\\';
+							MxBuffer[MxBufferPos++] = 'u';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = '0';
+							MxBuffer[MxBufferPos++] = (*Val & 0x10 ? '1' : '0');
+							MxBuffer[MxBufferPos++] = "0123456789abcdef"[*Val & 0x0F];
+						}
+						else
+						{
+							MxBuffer[MxBufferPos++] = *Val;
+						}
+
+						Val++;
+
+						break;
+					}
 				}
 
 				Size--;
-- 
2.43.0


From a686910a649eec4762c54afb4bb980ddbfc610e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:29 +0000
Subject: [PATCH 06/58] fix: copied ordered hashes never filled their buckets,
 so lookups found nothing

---
 templates/detachable_ordered_hash_util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 48d6cc6..c95769e 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -76,6 +76,7 @@ public:
 		{
 			// Attach each cloned node to the end of the list.
 			Node2 = new OrderedHashNode<T>(*Node);
+			Node2->PrevListNode = NULL;
 			Node2->NextListNode = NULL;
 
 			if (FirstListNode == NULL)  FirstListNode = Node2;
@@ -92,6 +93,7 @@ public:
 			x = (size_t)(Node2->HashKey % HashSize);
 			Node2->NextHashNode = HashNodes[x];
 			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+			HashNodes[x] = Node2;
 
 			Node = Node->NextListNode;
 		}
@@ -131,6 +133,7 @@ public:
 			{
 				// Attach each cloned node to the end of the list.
 				Node2 = new OrderedHashNode<T>(*Node);
+				Node2->PrevListNode = NULL;
 				Node2->NextListNode = NULL;
 
 				if (FirstListNode == NULL)  FirstListNode = Node2;
@@ -147,6 +150,7 @@ public:
 				x = (size_t)(Node2->HashKey % HashSize);
 				Node2->NextHashNode = HashNodes[x];
 				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+				HashNodes[x] = Node2;
 
 				Node = Node->NextListNode;
 			}
-- 
2.43.0


From d847f5b32ebdfd3514532b0f49aa75761e183ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 07/58] fix: copying a packed ordered hash ran past the end of
 the source's nodes

---
 templates/packed_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 56f6bbf..2b401dc 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -84,7 +84,7 @@ public:
 		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
 		NumUsed = TempHash.NumUsed;
 
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + NextNodePos;
 
 		while (Node != LastNode)
 		{
@@ -147,7 +147,7 @@ public:
 
 			Node = TempHash.ArrayNodes;
 			Node2 = ArrayNodes;
-			LastNode = ArrayNodes + NextNodePos;
+			LastNode = TempHash.ArrayNodes + NextNodePos;
 
 			while (Node != LastNode)
 			{
-- 
2.43.0


From f7b46ae0b3a1431735f813ca24def483ec9bbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:02 +0000
Subject: [PATCH 08/58] fix: packed ordered hash leaked its previous storage on
 every resize

---
 templates/packed_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 2b401dc..2ae1584 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -510,6 +510,8 @@ private:
 
 				Node++;
 			}
+
+			delete[] (char *)ArrayNodes;
 		}
 
 		ArrayNodes = ArrayNodes2;
-- 
2.43.0


From 6e1aca2770dadaec2e6152e7d79662f992f3335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 09/58] fix: assigning a 2D array of a different size left it
 without storage

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 88f5685..7f10937 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -53,7 +53,7 @@ namespace CubicleSoft
 					Height = TempArray.Height;
 
 					size_t y = Width * Height;
-					if (y)
+					if (!y)
 					{
 						baseptr = NULL;
 						ptr = NULL;
-- 
2.43.0


From b89ee50f414d28b1587aea7c8c13bc6a501adf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 10/58] fix: 2D array comparison compared elements with row
 pointers

---
 templates/static_2d_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 7f10937..6b01f96 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -89,7 +89,7 @@ namespace CubicleSoft
 			if (Width != TempArray.Width || Height != TempArray.Height)  return false;
 
 			size_t x, y = Width * Height;
-			for (x = 0; x < y && baseptr[x] == TempArray.ptr[x]; x++);
+			for (x = 0; x < y && baseptr[x] == TempArray.baseptr[x]; x++);
 			if (x < y)  return false;
 
 			return true;
-- 
2.43.0


From ca4a9c3992dd00c9647de0587d0e254a96f9eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 11/58] fix: UTF-8 code point iteration recursed forever and
 never decoded multi-byte sequences

---
 utf8/utf8_util.cpp | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index f3aa7d8..1588b73 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -3,6 +3,8 @@
 
 #include "utf8_util.h"
 
+#include <cstring>
+
 namespace CubicleSoft
 {
 	namespace UTF8
@@ -339,16 +341,28 @@ namespace CubicleSoft
 			}
 			else
 			{
-				Size = strlen(Str);
+				Size = std::strlen(Str);
 				HasCombiningCP = false;
 
 				ResultCP = Str2[0];
 				if (ResultCP == 0)  return false;
 
 				if (ResultCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					ResultCP = (((ResultCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  return false;
 
 				// First character can't be a combining code point.
@@ -360,9 +374,21 @@ namespace CubicleSoft
 			if (NextCP != 0)
 			{
 				if (NextCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
+				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x1F) << 6) | ((std::uint32_t)Str2[Pos + 1] & 0x3F));
+					Pos += 2;
+				}
+				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x0F) << 12) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 2] & 0x3F));
+					Pos += 3;
+				}
+				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)
+				{
+					NextCP = (((NextCP & 0x07) << 18) | (((std::uint32_t)Str2[Pos + 1] & 0x3F) << 12) | (((std::uint32_t)Str2[Pos + 2] & 0x3F) << 6) | ((std::uint32_t)Str2[Pos + 3] & 0x3F));
+					Pos += 4;
+				}
 				else  NextCP = 0;
 			}
 
-- 
2.43.0


From aac45b574559512172911596849a0e8e12a7ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:51 +0000
Subject: [PATCH 12/58] fix: FindCodePoint returned a position past the match
 instead of the match

---
 utf8/utf8_util.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 1588b73..bbb7b76 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -310,21 +310,33 @@ namespace CubicleSoft
 
 		bool Util::FindCodePoint(size_t &ResultPos, std::uint32_t CodePoint, const char *Str, bool AllowCombiningCP)
 		{
-			size_t x, y;
+			size_t x, y, z;
 			std::uint32_t ResultCP, NextCP;
 			bool HasCombiningCP;
 
 			if (!AllowCombiningCP && IsCombiningCodePoint(CodePoint))  return false;
 
 			x = 0;
+			z = 0;
 			while (NextCodePoint(ResultCP, NextCP, Str, x, y, HasCombiningCP))
 			{
 				if (ResultCP == CodePoint && (AllowCombiningCP || !HasCombiningCP))
 				{
-					ResultPos = x;
+					// The iterator reads one code point ahead.  Back up to the start of the matching code point.
+					if (z)
+					{
+						do
+						{
+							z--;
+						} while ((Str[z] & 0xC0) == 0x80);
+					}
+
+					ResultPos = z;
 
 					return true;
 				}
+
+				z = x;
 			}
 
 			return false;
-- 
2.43.0


From a7a522a7cebd61b748bbecae3667fa6d4c3c9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:52 +0000
Subject: [PATCH 13/58] fix: converting from UTF-8 to an allocated string used
 an uninitialized size and no terminator

---
 utf8/utf8_util.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index bbb7b76..d611f2f 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -11,7 +11,7 @@ namespace CubicleSoft
 	{
 		char *Util::ConvertToUTF8(const void *SrcData, size_t SrcWidth, size_t *LastPos, void *AltMallocManager, void *(*AltMalloc)(void *, size_t))
 		{
-			size_t x = 0, y;
+			size_t x = 0, y = 0;
 			std::uint8_t *DestData;
 
 			if (SrcWidth == 1)
@@ -55,14 +55,19 @@ namespace CubicleSoft
 			size_t x, y;
 			void *DestData;
 
-			x = strlen(SrcData);
+			x = std::strlen(SrcData);
+			y = 0;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, NULL, y, DestWidth);
-			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y) : new std::uint8_t[y]);
-			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, y * sizeof(uint16_t)) : new uint16_t[y]);
-			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, y * sizeof(uint32_t)) : new std::uint32_t[y]);
+			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y + 1) : new std::uint8_t[y + 1]);
+			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint16_t)) : new uint16_t[y + 1]);
+			else if (DestWidth == 4)  DestData = (AltMalloc != NULL ? (std::uint32_t *)AltMalloc(AltMallocManager, (y + 1) * sizeof(uint32_t)) : new std::uint32_t[y + 1]);
 			else  return NULL;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, DestData, y, DestWidth);
 
+			if (DestWidth == 1)  ((std::uint8_t *)DestData)[y] = 0;
+			else if (DestWidth == 2)  ((uint16_t *)DestData)[y] = 0;
+			else  ((std::uint32_t *)DestData)[y] = 0;
+
 			return DestData;
 		}
 
@@ -259,7 +264,7 @@ namespace CubicleSoft
 			DestDataSize = 0;
 
 			x = 0;
-			while (x < SrcDataSize && y)
+			while (x < SrcDataSize && (y || DestData == NULL))
 			{
 				TempCP = SrcData[x];
 
-- 
2.43.0


From 4eb4cb14c6c9aa302feb29c09d418a52096ea14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:52 +0000
Subject: [PATCH 14/58] fix: UTF-8 cleanup reported the wrong resume position
 after 3 and 4 byte sequences

---
 utf8/utf8_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index d611f2f..3bde5f4 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -162,14 +162,14 @@ namespace CubicleSoft
 					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
-						AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y);
 						x += 3;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 						x += 4;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else  x++;
 				}
-- 
2.43.0


From c9607600435cf6e3bf408d56b6de71892c62ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 15/58] fix: UTF-8 variables dropped or split non-ASCII
 characters near their capacity

---
 utf8/utf8_mixed_var.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 9227fac..6784086 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -30,9 +30,9 @@ namespace CubicleSoft
 			void SetUTF8(const WCHAR *src, size_t srcsize)
 			{
 				this->MxMode = MV_Str;
-				this->MxStrPos = sizeof(this->MxStr);
+				this->MxStrPos = sizeof(this->MxStr) - 1;
 				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr, this->MxStrPos);
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				if (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0')  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 
@@ -48,11 +48,10 @@ namespace CubicleSoft
 
 			void AppendUTF8(const WCHAR *src)
 			{
-				size_t srcsize = wcslen(src);
-				if (srcsize > sizeof(this->MxStr) - this->MxStrPos)  srcsize = sizeof(this->MxStr) - this->MxStrPos;
-				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, srcsize);
-				this->MxStrPos += srcsize;
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				size_t destsize = sizeof(this->MxStr) - this->MxStrPos - 1;
+				Util::ConvertToUTF8(src, wcslen(src), sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, destsize);
+				this->MxStrPos += destsize;
+				if (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0')  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 		};
-- 
2.43.0


From e714713187606a613df7da8e1b2134d730e15ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:44 +0000
Subject: [PATCH 16/58] fix: FastReplace read past the end of its buffer when
 growing it

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d0c8857..144146d 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -563,7 +563,7 @@ public:
 				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-				memcpy(NewData, MxData, NewSize * sizeof(T));
+				memcpy(NewData, MxData, MxDataPos * sizeof(T));
 				delete[] reinterpret_cast<char *>(MxData);
 
 				MxData = NewData;
-- 
2.43.0


From 456262f9a9b9c77f45773cc185bd9624da8f7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:47 +0000
Subject: [PATCH 17/58] fix: replacing with a limit lost the remainder of the
 data after the last replacement

---
 templates/fast_find_replace_util.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 144146d..8da610b 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -589,6 +589,7 @@ public:
 		{
 			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
+			MxSrcCurr += SrcDist;
 		}
 
 		return NextPos;
@@ -714,14 +715,18 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
-			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
+			// Matches beyond the limit are left as-is.
+			if (Num < Limit)
+			{
+				TempReplace.Replace(ReplaceWith, ReplaceWithSize);
 
-			Num++;
+				Num++;
+			}
 		}
 
 		ResultSize = TempReplace.GetDataSize();
@@ -782,14 +787,18 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
-			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
+			// Matches beyond the limit are left as-is.
+			if (Num < Limit)
+			{
+				TempReplace.Replace(ReplaceWith, ReplaceWithSize);
 
-			Num++;
+				Num++;
+			}
 		}
 
 		ResultSize = TempReplace.GetDataSize();
-- 
2.43.0


From 33bee90b0fe5f7191a17bb47f1083762baff10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:48 +0000
Subject: [PATCH 18/58] fix: FastReplace leaked the previous result when given
 new data

---
 templates/fast_find_replace_util.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 8da610b..44af624 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -517,6 +517,15 @@ public:
 	// Only pass in ResultBuffer and ResultBufferSize for static buffers and replacements that will be smaller than the original.
 	void SetData(const T *Data, size_t Size, T *ResultBuffer = NULL, size_t ResultBufferSize = 0)
 	{
+		if (MxData != NULL && MxDataAllocated)
+		{
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
+			AllocType::free(MxAltMallocManager, MxData);
+#else
+			delete[] reinterpret_cast<char *>(MxData);
+#endif
+		}
+
 		MxFind.SetData(Data, Size);
 
 		MxSrcCurr = Data;
-- 
2.43.0


From afe2997326a349405b023fb052802e0d1dc0a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:23 +0000
Subject: [PATCH 19/58] fix: random byte reads looped forever on errors and
 restarted on partial reads

---
 security/security_csprng.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index 10f2e0c..f81f23b 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -49,15 +49,18 @@ namespace CubicleSoft
 
 			ssize_t BytesRead;
 
-			do
+			while (Size)
 			{
 				do
 				{
 					BytesRead = read(MxURandom, Result, Size);
 				} while (BytesRead < 0 && errno == EINTR);
-			} while (BytesRead != (ssize_t)Size);
 
-			if (BytesRead < 0)  return false;
+				if (BytesRead <= 0)  return false;
+
+				Result += BytesRead;
+				Size -= (size_t)BytesRead;
+			}
 
 			return true;
 		}
-- 
2.43.0


From 3659c950288c65309fb8adfc6ba6b72b330488ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:24 +0000
Subject: [PATCH 20/58] fix: a failing clock left the semaphore's internal
 mutex locked

---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7599368..88f5992 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -411,7 +411,13 @@ namespace CubicleSoft
 			{
 				struct timespec TempTime;
 
-				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)  return false;
+				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)
+				{
+					pthread_mutex_unlock(UnixSemaphore.MxMutex);
+
+					return false;
+				}
+
 				TempTime.tv_sec += Wait / 1000;
 				TempTime.tv_nsec += (Wait % 1000) * 1000000;
 				TempTime.tv_sec += TempTime.tv_nsec / 1000000000;
-- 
2.43.0


From 67681128c8e16a23f64dd1883c69f58620e24b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:24 +0000
Subject: [PATCH 21/58] fix: releasing a full semaphore with the largest
 maximum wrapped its count to zero

---
 sync/sync_util.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 88f5992..7e64c3a 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -449,8 +449,7 @@ namespace CubicleSoft
 			if (pthread_mutex_lock(UnixSemaphore.MxMutex) != 0)  return false;
 
 			if (PrevVal != NULL)  *PrevVal = UnixSemaphore.MxCount[0];
-			UnixSemaphore.MxCount[0]++;
-			if (UnixSemaphore.MxCount[0] > UnixSemaphore.MxMax[0])  UnixSemaphore.MxCount[0] = UnixSemaphore.MxMax[0];
+			if (UnixSemaphore.MxCount[0] < UnixSemaphore.MxMax[0])  UnixSemaphore.MxCount[0]++;
 
 			// Let a waiting thread have at it.
 			pthread_cond_signal(UnixSemaphore.MxCond);
-- 
2.43.0


From e7b0671694c7efefa776a084497fa23397ff7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:04 +0000
Subject: [PATCH 22/58] fix: reopening unreferenced named memory cleared past
 the end of the mapping

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7e64c3a..5f74f3b 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -280,7 +280,7 @@ namespace CubicleSoft
 							else
 							{
 								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size);
+								memset(MemPtr, 0, Size - StartPos);
 
 								Result = 0;
 							}
-- 
2.43.0


From 3dc130d84305f387bc626b7627f626518bf7859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 23/58] fix: rebuilding an unreferenced named object unlocked
 its mutex twice and let others in early

---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 5f74f3b..e879338 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -287,7 +287,8 @@ namespace CubicleSoft
 
 							RefCountPtr[0]++;
 
-							pthread_mutex_unlock(MutexPtr);
+							// Like new objects, the mutex stays locked until UnixNamedMemReady() when the object has to be rebuilt.
+							if (Result == 1)  pthread_mutex_unlock(MutexPtr);
 						}
 
 						close(fp);
-- 
2.43.0


From 66f580f2eb222ad8e7f13394dd637f7d097ea15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 24/58] fix: shared memory kept reporting that it was first
 after opening an existing object

---
 sync/sync_sharedmem.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index fdfa1c2..34df641 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -98,12 +98,8 @@ namespace CubicleSoft
 			MxSize = Size;
 
 			// Handle the first time this named memory has been opened.
-			if (Result == 0)
-			{
-				Util::UnixNamedMemReady(MxMemInternal);
-
-				MxFirst = true;
-			}
+			MxFirst = (Result == 0);
+			if (MxFirst)  Util::UnixNamedMemReady(MxMemInternal);
 
 			return true;
 		}
-- 
2.43.0


From 0378c711616f41aab762b91b08c6a40f80684bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 25/58] fix: reader/writer lock subtracted elapsed seconds from
 a wait in milliseconds

---
 sync/sync_readwritelock.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index a759d8f..8ebffc0 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -262,13 +262,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Acquire the counter mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
@@ -302,13 +302,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
-- 
2.43.0


From 5f7f2bae10160747e6d7cd96adc8f8cc7da27d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 26/58] fix: creating a mutex again leaked the previous object
 unless it was locked

---
 sync/sync_mutex.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index ee4873f..4729557 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -153,29 +153,27 @@ namespace CubicleSoft
 		{
 			if (pthread_mutex_lock(&MxPthreadCritSection) != 0)  return false;
 
-			if (MxCount > 0)
+			if (MxCount > 0 && MxOwnerID != Util::GetCurrentThreadID())
 			{
-				if (MxOwnerID == Util::GetCurrentThreadID())
-				{
-					if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
-					else
-					{
-						Util::FreeUnixSemaphore(MxPthreadMutex);
+				pthread_mutex_unlock(&MxPthreadCritSection);
 
-						delete[] MxMem;
-					}
+				return false;
+			}
 
-					MxNamed = false;
-					MxMem = NULL;
-					MxCount = 0;
-					MxOwnerID = 0;
-				}
+			if (MxMem != NULL)
+			{
+				if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
 				else
 				{
-					pthread_mutex_unlock(&MxPthreadCritSection);
+					Util::FreeUnixSemaphore(MxPthreadMutex);
 
-					return false;
+					delete[] MxMem;
 				}
+
+				MxNamed = false;
+				MxMem = NULL;
+				MxCount = 0;
+				MxOwnerID = 0;
 			}
 
 			size_t Pos, TempSize = Util::GetUnixSemaphoreSize();
-- 
2.43.0


From 94d050f9102aea225a89607e7ca854c2d13d703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:06 +0000
Subject: [PATCH 27/58] fix: locking a mutex that was never created used
 uninitialized pointers

---
 sync/sync_mutex.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index 4729557..980d274 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -206,6 +206,14 @@ namespace CubicleSoft
 		{
 			if (pthread_mutex_lock(&MxPthreadCritSection) != 0)  return false;
 
+			// Make sure the mutex exists.
+			if (MxMem == NULL)
+			{
+				pthread_mutex_unlock(&MxPthreadCritSection);
+
+				return false;
+			}
+
 			// Check to see if this mutex is already owned by the calling thread.
 			if (MxOwnerID == Util::GetCurrentThreadID())
 			{
-- 
2.43.0


From a93fc0fc3647d29935c43bdaabcd7f6f0e01c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 28/58] fix: void shared library calls never loaded their
 function on first use

---
 templates/shared_lib_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/shared_lib_util.h b/templates/shared_lib_util.h
index 2a19779..3df905a 100644
--- a/templates/shared_lib_util.h
+++ b/templates/shared_lib_util.h
@@ -22,7 +22,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	FARPROC FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
@@ -84,7 +84,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	void *FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
-- 
2.43.0


From 91e21916e1c37fcebbe2d17e39baedca140adecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:05 +0000
Subject: [PATCH 29/58] fix: growing a large thread-local block did not update
 its recorded size, losing data later

---
 sync/sync_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 62f69c3..55ea5ae 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -124,7 +124,10 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos && MainPtr->GetSize() <= Pos2)
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
+				if (Data2 == NULL)  return NULL;
+
 				Data2 = (std::uint8_t *)Data2 + 1;
+				((std::uint8_t *)Data2)[-1] = (std::uint8_t)Pos;
 			}
 			else
 			{
-- 
2.43.0


From 2a321298be906346eeeb019fa4aa2640edc68214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:06 +0000
Subject: [PATCH 30/58] fix: thread-local allocator used the result of failed
 allocations

---
 sync/sync_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 55ea5ae..a23f1a6 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -78,6 +78,8 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos)
 			{
 				Data = ::malloc(Size);
+				if (Data == NULL)  return NULL;
+
 				Data = (std::uint8_t *)Data + 1;
 			}
 			else
@@ -133,6 +135,7 @@ namespace CubicleSoft
 			{
 				// Allocate data.
 				Data2 = malloc(NewSize);
+				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
 				memcpy(Data2, Data, (1 << Pos2));
-- 
2.43.0


From fd8f43c88e245e35741773e63e55693b130534cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:07 +0000
Subject: [PATCH 31/58] fix: thread-local allocator computed block sizes of 2GB
 and up in 32-bit arithmetic

---
 sync/sync_tls.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a23f1a6..cd7a1f2 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -138,7 +138,7 @@ namespace CubicleSoft
 				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
-				memcpy(Data2, Data, (1 << Pos2));
+				memcpy(Data2, Data, ((size_t)1 << Pos2));
 
 				// Free the previous object.
 				free(Data, Cache);
@@ -152,7 +152,7 @@ namespace CubicleSoft
 			if (Data == NULL)  return NULL;
 
 			// Allocate the appropriate size buffer.
-			size_t Size = (size_t)(1 << ((size_t)((std::uint8_t *)Data)[-1]));
+			size_t Size = (size_t)1 << ((size_t)((std::uint8_t *)Data)[-1]);
 			void *Data2 = ::malloc(Size);
 			if (Data2 == NULL)  return NULL;
 
@@ -198,7 +198,7 @@ namespace CubicleSoft
 			else
 			{
 				Nodes = (*MainPtr)[Num].GetSize();
-				Size = (size_t)(1 << Num);
+				Size = (size_t)1 << Num;
 				if (Size < sizeof(QueueNode<char>))  Size = sizeof(QueueNode<char>);
 				Size *= Nodes;
 			}
-- 
2.43.0


From 75e76239ec5f213a4f42d187075dfb30577d59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:07 +0000
Subject: [PATCH 32/58] fix: copying a thread-local variable freed an
 uninitialized pointer

---
 sync/sync_tls.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index cd7a1f2..1ef5987 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -263,16 +263,11 @@ namespace CubicleSoft
 		}
 
 		// Copy constructor.
-		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar)
+		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar) : MxStr(NULL), MxStrPos(0)
 		{
 			MxTLS = TempVar.MxTLS;
 
 			if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-			else
-			{
-				MxStr = NULL;
-				MxStrPos = 0;
-			}
 
 			MxMode = TempVar.MxMode;
 			MxInt = TempVar.MxInt;
-- 
2.43.0


From 16cac557a16fd906b78701713cb01a46d2b06131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:08 +0000
Subject: [PATCH 33/58] fix: assigning thread-local variables freed the old
 string through the wrong allocator

---
 sync/sync_tls.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 1ef5987..dfb9994 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -279,16 +279,13 @@ namespace CubicleSoft
 		{
 			if (this != &TempVar)
 			{
+				if (MxStr != NULL)  MxTLS->free(MxStr);
+				MxStr = NULL;
+				MxStrPos = 0;
+
 				MxTLS = TempVar.MxTLS;
 
 				if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-				else
-				{
-					MxTLS->free(MxStr);
-
-					MxStr = NULL;
-					MxStrPos = 0;
-				}
 
 				MxMode = TempVar.MxMode;
 				MxInt = TempVar.MxInt;
-- 
2.43.0


From 85b419dfe21d5d566e55c7a917a903bf1caa9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 34/58] fix: sizing an empty thread-local variable to zero
 wrote through a null pointer

---
 sync/sync_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index dfb9994..ae29a94 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -403,7 +403,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::SetSize(size_t pos)
 		{
-			if (MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
+			if (MxStr == NULL || MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
 
 			MxStrPos = pos;
 			MxStr[MxStrPos] = '\0';
-- 
2.43.0


From 3693220b2a3f87c7e76677e939801ab8ada62969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 35/58] fix: replacing inside an empty thread-local variable
 wrote through a null pointer

---
 sync/sync_tls.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index ae29a94..9c10c01 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -413,6 +413,8 @@ namespace CubicleSoft
 		{
 			size_t Num;
 
+			if (MxStr == NULL)  return 0;
+
 			if (srcsize < destsize)
 			{
 				char *Result;
-- 
2.43.0


From aafbc7c3d76f7ae1f8793b2d90d640a25af0eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:11 +0000
Subject: [PATCH 36/58] fix: in-place replacement copied between overlapping
 regions with memcpy

---
 templates/fast_find_replace_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 44af624..447e90d 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -596,7 +596,7 @@ public:
 
 		if (SrcDist)
 		{
-			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
+			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
 			MxSrcCurr += SrcDist;
 		}
-- 
2.43.0


From 500a402d1c9634dcda69d4e051c28d658a84589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:34 +0000
Subject: [PATCH 37/58] fix: a new static variable's string was not terminated,
 also after prepending to it

---
 templates/static_mixed_var.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 1a9f1f7..a8ce654 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -35,6 +35,7 @@ namespace CubicleSoft
 
 		StaticMixedVar() : MxMode(MV_None), MxInt(0), MxDouble(0.0), MxStrPos(0)
 		{
+			MxStr[0] = '\0';
 		}
 
 		// Some functions for those who prefer member functions over directly accessing raw class data.
-- 
2.43.0


From efb1774899819bcb1357894824822b92013318c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 38/58] fix: prepending to a static variable refused data that
 exactly fits

---
 templates/static_mixed_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index a8ce654..2fe315a 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -155,7 +155,7 @@ namespace CubicleSoft
 		void PrependStr(const char *str)
 		{
 			size_t y = strlen(str);
-			if (MxStrPos + y < sizeof(MxStr) - 1)
+			if (MxStrPos + y < sizeof(MxStr))
 			{
 				memmove(MxStr + y, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, y);
@@ -165,7 +165,7 @@ namespace CubicleSoft
 
 		void PrependData(const char *str, size_t size)
 		{
-			if (MxStrPos + size < sizeof(MxStr) - 1)
+			if (MxStrPos + size < sizeof(MxStr))
 			{
 				memmove(MxStr + size, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, size);
-- 
2.43.0


From dc32173016dc438b4976db058dbaa9254f4db5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:27 +0000
Subject: [PATCH 39/58] fix: home directory that exactly fills the buffer
 overflowed it by one byte

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 878a5f8..70956a0 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -184,7 +184,7 @@ namespace CubicleSoft
 			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
 			if (HomeDir == NULL)  return false;
 
-			if (z2 < strlen(HomeDir))  return false;
+			if (z2 <= strlen(HomeDir))  return false;
 
 			strcpy(Buffer, HomeDir);
 			size_t z = strlen(HomeDir);
-- 
2.43.0


From f71db808b257532f3943ee221dd2bf56201adfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:27 +0000
Subject: [PATCH 40/58] fix: temporary directory overflowed a five byte buffer
 by one byte

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 70956a0..95c27d8 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -198,7 +198,7 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
-			if (z2 < 5)  return false;
+			if (z2 < 6)  return false;
 
 			strcpy(Buffer, "/tmp/");
 			size_t z = 5;
-- 
2.43.0


From 0e825101067de209df3979c1c9d8f6d0f46405d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:28 +0000
Subject: [PATCH 41/58] fix: an empty home directory read before the start of
 the buffer

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 95c27d8..6e6fda8 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -209,7 +209,7 @@ namespace CubicleSoft
 		// Internal function to standardize a directory on *NIX.
 		bool AppInfo::GetNIXStorageDir(char *Buffer, size_t &BufferSize, const char *AppDirPrefix, const char *AppDir, size_t z, size_t z2)
 		{
-			if (z < z2 && Buffer[z - 1] != '/')  Buffer[z++] = '/';
+			if (z < z2 && (!z || Buffer[z - 1] != '/'))  Buffer[z++] = '/';
 			if (AppDir != NULL)
 			{
 				if (AppDirPrefix != NULL)
-- 
2.43.0


From 313d4fd4c5372984cfe40cd0db29cffd33d5a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:28 +0000
Subject: [PATCH 42/58] fix: filenames with non-ASCII characters were rejected
 where char is signed

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 672d843..aa3d61e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1382,7 +1382,7 @@ namespace CubicleSoft
 		bool File::GetPlatformFilename(char *Result, size_t ResultSize, const char *Filename, bool)
 		{
 			// Check for invalid characters in the path/filename.  Replace '\' with '/'.
-			char TempCP;
+			std::uint8_t TempCP;
 			size_t x, y = strlen(Filename);
 			if (y + 1 > ResultSize)  return false;
 			Util::ConvertToUTF8(Filename, y + 1, sizeof(char), (std::uint8_t *)Result, ResultSize);
@@ -1391,7 +1391,7 @@ namespace CubicleSoft
 			// Ignore combining code points since kernels are generally not fully UTF-8 aware.
 			for (x = 0; x < y; x++)
 			{
-				TempCP = Result[x];
+				TempCP = (std::uint8_t)Result[x];
 
 				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '\\')  Result[x] = '/';
-- 
2.43.0


From ebf7f7ceaa7183d4e05613e2a61a5f4c7b967844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:29 +0000
Subject: [PATCH 43/58] fix: copied files were padded with garbage and write
 failures were ignored

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index aa3d61e..7ea6e60 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1598,12 +1598,12 @@ namespace CubicleSoft
 			if (!DestFile.Open(DestFilename2, O_WRONLY | O_CREAT, File::ShareNone, SrcStat.st_mode))  return false;
 
 			std::uint8_t Buffer[8192];
-			size_t y;
+			size_t y, y2;
 
 			// Copy the data.
 			while (SrcFile.Read(Buffer, 8192, y) && y)
 			{
-				DestFile.Write(Buffer, 8192, y);
+				if (!DestFile.Write(Buffer, y, y2))  return false;
 			}
 
 			// Truncate the file to the current point.
-- 
2.43.0


From d7a478eb0999968e180586ea085afd830d47bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 44/58] fix: an interrupted file write moved the data pointer
 backwards and miscounted

---
 utf8/utf8_file_dir.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 7ea6e60..8b573cd 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1336,7 +1336,12 @@ namespace CubicleSoft
 			do
 			{
 				BytesWritten = ::write(MxFile, Data, DataSize);
-				if (BytesWritten < 0 && errno != EINTR)  return false;
+				if (BytesWritten < 0)
+				{
+					if (errno == EINTR)  continue;
+
+					return false;
+				}
 
 				DataSize -= BytesWritten;
 				Data += BytesWritten;
-- 
2.43.0


From bcf9e8d50248808c5d5136d7a9c9dde20acbdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:49 +0000
Subject: [PATCH 45/58] fix: a write that failed part way left the recorded
 file position behind

---
 utf8/utf8_file_dir.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 8b573cd..e7bda7a 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1332,6 +1332,7 @@ namespace CubicleSoft
 			DataWritten = 0;
 			if (DataSize == 0)  return true;
 
+			bool Result = true;
 			ssize_t BytesWritten;
 			do
 			{
@@ -1340,7 +1341,9 @@ namespace CubicleSoft
 				{
 					if (errno == EINTR)  continue;
 
-					return false;
+					Result = false;
+
+					break;
 				}
 
 				DataSize -= BytesWritten;
@@ -1350,7 +1353,7 @@ namespace CubicleSoft
 			MxCurrPos += (std::uint64_t)DataWritten;
 			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
-			return true;
+			return Result;
 		}
 
 		bool File::Flush()
-- 
2.43.0


From 72e844361aa938b89b31afb2947e32206c359cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:49 +0000
Subject: [PATCH 46/58] fix: seeking forward by a huge amount wrapped around to
 an earlier position

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index e7bda7a..64df000 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1288,7 +1288,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
-- 
2.43.0


From 907e269dd92f896e16d00ab91413e273cb51fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:50 +0000
Subject: [PATCH 47/58] fix: opening a file that is locked by someone else
 failed but left it open

---
 utf8/utf8_file_dir.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 64df000..4c22d61 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1259,17 +1259,32 @@ namespace CubicleSoft
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
 			{
-				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
 			else if (ShareFlag == ShareBoth)
 			{
-				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
-			else  return false;
+			else
+			{
+				Close();
+
+				return false;
+			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-- 
2.43.0


From 607a508c9b21d1a7d77eb462632481d0129770fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:51 +0000
Subject: [PATCH 48/58] fix: the target of a symbolic link was not terminated

---
 utf8/utf8_file_dir.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 4c22d61..98181cb 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1690,7 +1690,11 @@ namespace CubicleSoft
 		{
 			ssize_t Size = ::readlink(Filename, Result, ResultSize);
 
-			return (Size != -1 && (size_t)Size < ResultSize);
+			if (Size == -1 || (size_t)Size >= ResultSize)  return false;
+
+			Result[Size] = '\0';
+
+			return true;
 		}
 
 		// Only Windows supports Creation timestamp modification.
-- 
2.43.0


From d84204cd4bebcc8298bb3f9c180cfbb303d1e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:52 +0000
Subject: [PATCH 49/58] fix: reading a long line copied past the end of the
 previous buffer

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 98181cb..2525c00 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1905,7 +1905,7 @@ namespace CubicleSoft
 					else
 					{
 						Result2 = new char[CurrSize + 1];
-						memcpy(Result2, Result, CurrSize);
+						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
 					}
-- 
2.43.0


From 22f2c41af10547b6be45cc5782e1085f9649318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:52 +0000
Subject: [PATCH 50/58] fix: reading a line looped forever on a zero size hint
 and used an uninitialized size on errors

---
 utf8/utf8_file_dir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 2525c00..e9dd5a9 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1890,6 +1890,7 @@ namespace CubicleSoft
 			size_t x, CurrSize, ReadSize;
 
 			if (!IsOpen() || !MxRead)  return NULL;
+			if (!SizeHint)  SizeHint = 1;
 
 			Result = NULL;
 			CurrSize = SizeHint;
@@ -1911,6 +1912,7 @@ namespace CubicleSoft
 					}
 				}
 
+				ReadSize = 0;
 				Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize);
 				if (ReadSize < SizeHint)
 				{
-- 
2.43.0


From e2a4a243dceb06741278d806391bf7a5a9e0cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:53 +0000
Subject: [PATCH 51/58] fix: copying a file reported success after a read error

---
 utf8/utf8_file_dir.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index e9dd5a9..f14df4e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1624,10 +1624,11 @@ namespace CubicleSoft
 			size_t y, y2;
 
 			// Copy the data.
-			while (SrcFile.Read(Buffer, 8192, y) && y)
+			do
 			{
-				if (!DestFile.Write(Buffer, y, y2))  return false;
-			}
+				if (!SrcFile.Read(Buffer, 8192, y))  return false;
+				if (y && !DestFile.Write(Buffer, y, y2))  return false;
+			} while (y);
 
 			// Truncate the file to the current point.
 			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) == 0)  {}
-- 
2.43.0


From 5d3d63213279f8c63a50756f48d349f298a5dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:54 +0000
Subject: [PATCH 52/58] fix: building an absolute filename read uninitialized
 bytes past the path

---
 utf8/utf8_file_dir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index f14df4e..960d929 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1525,6 +1525,7 @@ namespace CubicleSoft
 				if (FileInfo2.Length >= 8191)  return false;
 				Filename2[FileInfo2.Length++] = Filename3[x];
 			}
+			Filename2[FileInfo2.Length] = '\0';
 
 			// Copy the rest.
 			x = 0;
-- 
2.43.0


From ea8b6f20c3e1bcdefea4f767dbd6cd27dea96d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:42 +0000
Subject: [PATCH 53/58] fix: changing the group of a file looked the name up as
 a user

---
 utf8/utf8_file_dir.cpp | 6 +++---
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 960d929..81cefb0 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1599,10 +1599,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Group);
-			if (UserInfo == NULL)  return false;
+			struct group *GroupInfo = getgrnam(Group);
+			if (GroupInfo == NULL)  return false;
 
-			return (::chown(Filename2, -1, UserInfo->pw_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 09640c3..19c8e29 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -25,6 +25,7 @@
 	#include <fcntl.h>
 	#include <unistd.h>
 	#include <pwd.h>
+	#include <grp.h>
 	#include <errno.h>
 	#include <utime.h>
 	#include <dirent.h>
-- 
2.43.0


From e02b891aabd4bd2fd32d7fab9c754cc3847dddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:07 +0000
Subject: [PATCH 54/58] fix: an automatic event fired while a timed wait gave
 up could leave another waiter asleep

---
 sync/sync_util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index e879338..41c23c8 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -546,7 +546,8 @@ namespace CubicleSoft
 
 				UnixEvent.MxWaiting[0]--;
 
-				if (Result2 == 0)
+				// Also take an event that was fired while giving up.  Other threads may already be waiting behind this one for it.
+				if (UnixEvent.MxSignaled[0] != '\x00')
 				{
 					// Reset auto events.
 					if (UnixEvent.MxManual[0] == '\x00')  UnixEvent.MxSignaled[0] = '\x00';
@@ -586,7 +587,8 @@ namespace CubicleSoft
 
 				UnixEvent.MxWaiting[0]--;
 
-				if (Result2 == 0)
+				// Also take an event that was fired while giving up.  Other threads may already be waiting behind this one for it.
+				if (UnixEvent.MxSignaled[0] != '\x00')
 				{
 					// Reset auto events.
 					if (UnixEvent.MxManual[0] == '\x00')  UnixEvent.MxSignaled[0] = '\x00';
-- 
2.43.0


From 7aa8e246c06fad25cae6358574235f62f2620612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 55/58] fix: an unpaired high surrogate swallowed the unit
 after it, even the terminator

---
 utf8/utf8_util.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 3bde5f4..9317e06 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -186,15 +186,12 @@ namespace CubicleSoft
 					{
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else
+					else if (x + 1 < SrcDataSize && SrcData2[x + 1] >= 0xDC00 && SrcData2[x + 1] <= 0xDFFF)
 					{
 						x++;
 
-						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
-						{
-							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
-							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
-						}
+						TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 				}
 			}
-- 
2.43.0


From f9567b5aa3b84a7fa453d56a72a1f96d64abdafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:22 +0000
Subject: [PATCH 56/58] fix: JSON doubles written with a large precision (the
 keyed default) lost their exponent

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index d04a768..9adb17f 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -173,10 +173,10 @@ namespace CubicleSoft
 		{
 			char TempBuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
+			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", (int)(Precision < 92 ? Precision : 92), Val);
 			TempBuffer[sizeof(TempBuffer) - 1] = '\0';
 #else
-			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)Precision, Val);
+			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)(Precision < 92 ? Precision : 92), Val);
 #endif
 
 			size_t x = strlen(TempBuffer);
-- 
2.43.0


From 59494154e1d928c96a327616b1522e939d3a4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:22 +0000
Subject: [PATCH 57/58] fix: JSON output for infinity and NaN was not JSON

---
 json/json_serializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 9adb17f..5ab8e3f 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -171,6 +171,9 @@ namespace CubicleSoft
 
 		bool Serializer::AppendDouble(const char *Key, const double Val, const size_t Precision)
 		{
+			// Infinity and NaN cannot be represented in JSON.
+			if (Val - Val != 0.0)  return false;
+
 			char TempBuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", (int)(Precision < 92 ? Precision : 92), Val);
-- 
2.43.0


From ecd6d8f38d3edf2964b9518cfaea9dca5212a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:22 +0000
Subject: [PATCH 58/58] fix: mixed variable doubles written with a large
 precision lost their exponent

---
 sync/sync_tls.cpp            | 8 ++++----
 templates/static_mixed_var.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 9c10c01..f3c7d91 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -342,10 +342,10 @@ namespace CubicleSoft
 		{
 			char tempbuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
+			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", (int)(precision < 92 ? precision : 92), val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
 #else
-			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)precision, val);
+			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)(precision < 92 ? precision : 92), val);
 #endif
 
 			PrependStr(tempbuffer);
@@ -380,10 +380,10 @@ namespace CubicleSoft
 		{
 			char tempbuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
+			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", (int)(precision < 92 ? precision : 92), val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
 #else
-			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)precision, val);
+			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)(precision < 92 ? precision : 92), val);
 #endif
 
 			AppendStr(tempbuffer);
diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 2fe315a..47be5c8 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -189,10 +189,10 @@ namespace CubicleSoft
 		{
 			char tempbuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
+			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", (int)(precision < 92 ? precision : 92), val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
 #else
-			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)precision, val);
+			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)(precision < 92 ? precision : 92), val);
 #endif
 
 			PrependStr(tempbuffer);
@@ -233,10 +233,10 @@ namespace CubicleSoft
 		{
 			char tempbuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
+			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", (int)(precision < 92 ? precision : 92), val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
 #else
-			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)precision, val);
+			snprintf(tempbuffer, sizeof(tempbuffer), "%1.*g", (int)(precision < 92 ? precision : 92), val);
 #endif
 
 			AppendStr(tempbuffer);
-- 
2.43.0

