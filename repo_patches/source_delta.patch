From 642906aa1ef50406367920a8c5f72117d38924a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 01/65] fix: opening an empty symbol table must not fail, so
 names can be registered in a new pool

---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..c541186 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1437,6 +1437,12 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
 {
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
+    if (size == 0) // empty table - nothing to copy, names will start at allocator
+    {
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
     if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
-- 
2.43.0


From 1ba8bba036761036ba3fc495003b5f8383615837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 02/65] fix: registerTag(id,...) must report success when the
 tag is registered

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c541186..1fa1b41 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2053,6 +2053,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
 // name
     strcpy(dst,name);
     ROUND32UP(size);
+    dst -= sizeof(int16_t)+sizeof(XML_Binary_Type_Stored); // back to start of allocated space
     ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
     return true;
 }
-- 
2.43.0


From acf1ac7f266457cc022ee20a0229090c7d6bacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 03/65] fix: unregisterPlugin must move whole pointers

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 1fa1b41..df396b2 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2965,7 +2965,8 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            plugins_count--;
+            memmove(plugins+i,plugins+i+1,(plugins_count - i)*sizeof(plugins[0]));
             return true;
         }
     return false;
-- 
2.43.0


From 73c7305617d094fa679895d163abbadba478da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 04/65] fix: replacing the only element of a list must not link
 the new element to the old one

---
 src/bin_write_plugin.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index df396b2..0831639 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -170,11 +170,14 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
     ASSERT_NO_RET_NULL(2018,new_value->getPool() == old_value->getPool());
 
-    new_value->next = old_value->next;
-    new_value->prev = old_value->prev;
+    if (old_value->next != old_value->offset) // not the only element
+    {
+        new_value->next = old_value->next;
+        new_value->prev = old_value->prev;
 
-    BWE(new_value->next)->prev = new_value->offset;
-    BWE(new_value->prev)->next = new_value->offset;
+        BWE(new_value->next)->prev = new_value->offset;
+        BWE(new_value->prev)->next = new_value->offset;
+    }
     
     old_value->flags |= BIN_DELETED;
     old_value->next = old_value->prev = old_value->offset;
-- 
2.43.0


From 0a3bd55de0b8a08b4c03ba3240d57ec0c85ce505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 05/65] fix: symbol ids above 127 must not be sign-extended
 when names are scanned

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0831639..fc553ab 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1249,8 +1249,8 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = *reinterpret_cast<const int16_t*>(p);
+            p += sizeof(int16_t);
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
 
@@ -1321,7 +1321,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = *reinterpret_cast<const int16_t*>(p);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1359,7 +1359,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = *reinterpret_cast<const int16_t*>(p);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1403,8 +1403,8 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = *reinterpret_cast<const int16_t*>(p);
+            p += sizeof(int16_t);
             if (id != prev_id+1) // don't go to other table
             {
                 LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
-- 
2.43.0


From 9f96a39365ef6fa29e753b308cef72f8940bf380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 06/65] fix: grow the pool when registered names need it

---
 src/bin_write_plugin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index fc553ab..cbbe494 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2030,6 +2030,7 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
+    ASSERT_NO_RET_FALSE(2136,makeSpace(pool->tags.getNamesSize(pool)+strlen(name)+8)); // copy of table + new name
     ASSERT_NO_RET_NULL(2108,pool->tags.Open(pool)); // must be opened
 // elements must be defined first
 //    ASSERT_NO_RET_FALSE(1108,pool->params.names_offset == 0);
@@ -2080,6 +2081,7 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
         check_failures++; 
         return false;
     }
+    ASSERT_NO_RET_FALSE(2137,makeSpace(pool->params.getNamesSize(pool)+strlen(name)+8)); // copy of table + new name
     ASSERT_NO_RET_NULL(2098,pool->params.Open(pool)); // must be opened
 
 // elements must be defined first, empty element are not allowed!
@@ -2129,6 +2131,7 @@ XML_Tag_Names   BW_plugin::registerTag(const char *name,XML_Binary_Type type)
             return static_cast<XML_Tag_Names>(id);
         }
     }
+    ASSERT_NO_RET_(2138,makeSpace(pool->tags.getNamesSize(pool)+strlen(name)+8),XTNR_NULL); // copy of table + new name
     ASSERT_NO_RET_(2099,pool->tags.Open(pool),XTNR_NULL); // must be opened
 
     int len = strlen(name);
@@ -2174,6 +2177,7 @@ XML_Param_Names BW_plugin::registerParam(const char *name,XML_Binary_Type type)
     }
 // elements must be defined first, empty element are not allowed!
     ASSERT_NO_RET_(2119,pool->tags.names_offset != 0,XPNR_NULL);
+    ASSERT_NO_RET_(2139,makeSpace(pool->params.getNamesSize(pool)+strlen(name)+8),XPNR_NULL); // copy of table + new name
 // must be opened
     ASSERT_NO_RET_(2121,pool->params.Open(pool),XPNR_NULL); 
 
-- 
2.43.0


From 9d96ae55d31efa67c05361d906c260eb7fbee3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 07/65] fix: ForAllParams of an element without attributes must
 not read the pool header

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index cbbe494..03c4bd8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2865,6 +2865,7 @@ void BW_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdata)
     if (element == nullptr) return; // no attributes
 
     BW_element *E = reinterpret_cast<BW_element*>(element);
+    if (E->first_attribute == 0) return; // no attributes
     BW_element *child = BWE(E->first_attribute);
     for(;;)
     {
-- 
2.43.0


From 5c396b2b229877028a8e796f62041b68fe082ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 08/65] fix: null string values must not be dereferenced

---
 src/bin_write_plugin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 03c4bd8..8ccc985 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -843,7 +843,7 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
             char *dst = reinterpret_cast<char*>(target+1);
             int target_size = strlen(dst);
             if (((value_len+1+3) >> 2) <= (target_size+1+3) >> 2)
-                strcpy(dst,value); // shorter or in the same allocation size
+                strcpy(dst,value != nullptr ? value : ""); // shorter or in the same allocation size
             else
                 to_replace = true;
         }
@@ -1038,7 +1038,7 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
         LOG_ERROR("%s/%s is not STRING but %s - cannot set value %s",parent->getName(),getName(),XBT2STR(value_type),value);
         return false;
     }
-    if (strcmp(data_ref.content,value) == 0) return false; // no change
+    if (strcmp(data_ref.content,value != nullptr ? value : "") == 0) return false; // no change
 
     int value_len = value != nullptr ? strlen(value) : 0;
 
@@ -1758,7 +1758,8 @@ BW_element* BW_pool::tagString(int16_t id,const char *value)
     ASSERT_NO_RET_NULL(2037,result != nullptr);
     
     result->init(this,id,XBT_STRING,BIN_WRITE_ELEMENT_FLAG);
-    strcpy(reinterpret_cast<char*>(result+1),value);
+    if (value != nullptr)
+        strcpy(reinterpret_cast<char*>(result+1),value);
     return result;
 }
 
-- 
2.43.0


From 545a230917e4b01aa973981eeceae38d1ad3c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 09/65] fix: tagSetTime must not write 8 bytes into a 4 byte
 value

---
 src/bin_write_plugin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 8ccc985..13a4c56 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -864,8 +864,9 @@ BW_element  *BW_element::tagSetTime(int16_t id,time_t value)
     BW_element *target = tagGet(id);
     if (target != nullptr)
     {
-        time_t *tm = reinterpret_cast<time_t*>(target+1);
-        *tm = value;
+        ASSERT_NO_RET_NULL(2140,target->value_type == XBT_UNIX_TIME);
+        uint32_t *tm = reinterpret_cast<uint32_t*>(target+1);
+        *tm = (uint32_t)value;
     }
     else
     {
-- 
2.43.0


From 9bcdefb646d36eb8899f79aa3bf400350819c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 10/65] fix: setters must return the element that holds the new
 value and keep the old one when the new one cannot be created

---
 src/bin_write_plugin.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 13a4c56..bb56c1b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -789,7 +789,9 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
+            if (new_item == nullptr) return nullptr;
             replace(target,new_item);
+            target = new_item;
         }
          
     }
@@ -817,7 +819,9 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         else
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
+            if (new_item == nullptr) return nullptr;
             replace(target,new_item);
+            target = new_item;
         }
          
     }
@@ -850,7 +854,13 @@ BW_element  *BW_element::tagSetString(int16_t id,const char *value)
         if (to_replace)
         {
             BW_element *new_item = getPool()->tagString(id,value);
+            if (new_item == nullptr) return nullptr;
+            new_item->first_child = target->first_child; // keep content of replaced element
+            new_item->first_attribute = target->first_attribute;
             replace(target,new_item);
+            target->first_child = 0;
+            target->first_attribute = 0;
+            target = new_item;
         }
          
     }
-- 
2.43.0


From 98a345253d4a5e8d1aa86708482b654eac8576bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 11/65] fix: setStr must keep position and children of the
 element it reallocates

---
 src/bin_write_plugin.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index bb56c1b..88cb163 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1062,16 +1062,14 @@ bool BW_element::setStr(BW_plugin *W,BW_element *parent,const char *value)
     }
     else // must reallocate and it is not so easy
     {
-        // remove and add
-        BW_offset_t _first_attribute = first_attribute;
-        first_attribute = 0; // disconnect children
-
-        parent->remove(this);
-
-        BW_element *new_value; 
-        parent->add(new_value = W->tagStr(identification,value));
-
-        new_value->first_attribute = _first_attribute;
+        BW_element *new_value = W->tagStr(identification,value);
+        ASSERT_NO_RET_FALSE(10437,new_value != nullptr); // no space - old value remains
+        parent->replace(this,new_value);
+
+        new_value->first_attribute = first_attribute;
+        new_value->first_child = first_child;
+        first_attribute = 0; // disconnect attributes
+        first_child = 0; // disconnect children
     }
     return true;
 }
-- 
2.43.0


From 7dffdd35c0e70913f496cc119ab297efe05da81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 12/65] fix: CopyPath must match elements of the path by name
 too, not only by keys

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 88cb163..7cdacc8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2742,7 +2742,7 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             BW_element *child  = BWE(dst->first_child);
             for(;;)
             {
-                if (child->EqualKeys(xb,element))
+                if (child->identification == (int16_t)element->name && child->EqualKeys(xb,element))
                 { // Found!
                     element2 = child;
                     break;
-- 
2.43.0


From 1d94006272216b1d3281d0be01ef938f3e895b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 13/65] fix: UNIX_DATE is a 4 byte type

---
 include/binary_xml/bin_xml_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..11d0a37 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32 || (type) == XBT_UNIX_DATE)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
-- 
2.43.0


From 076b238ed8f5ad5859d3f208423e35a57c10f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 14/65] fix: tagSetInt32/tagSetInt64 must keep children and
 attributes of the element they replace

---
 src/bin_write_plugin.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7cdacc8..4ba31a3 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -790,7 +790,11 @@ BW_element  *BW_element::tagSetInt32(int16_t id,int32_t value)
         {
             BW_element *new_item = getPool()->tagInt32(id,value);
             if (new_item == nullptr) return nullptr;
+            new_item->first_child = target->first_child; // keep content of replaced element
+            new_item->first_attribute = target->first_attribute;
             replace(target,new_item);
+            target->first_child = 0;
+            target->first_attribute = 0;
             target = new_item;
         }
          
@@ -820,7 +824,11 @@ BW_element  *BW_element::tagSetInt64(int16_t id,int64_t value)
         {
             BW_element *new_item = getPool()->tagInt64(id,value);
             if (new_item == nullptr) return nullptr;
+            new_item->first_child = target->first_child; // keep content of replaced element
+            new_item->first_attribute = target->first_attribute;
             replace(target,new_item);
+            target->first_child = 0;
+            target->first_attribute = 0;
             target = new_item;
         }
          
-- 
2.43.0


From 23858103912fee9da885785f452e5de224dc770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 15/65] fix: attrSHA1 must copy 20 bytes, not the padded size

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 4ba31a3..84d3ccd 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -547,7 +547,7 @@ BW_element*     BW_element::attrSHA1(int16_t id,const char *value)
     attr->init(pool,id,attr_type,BIN_WRITE_ATTR_FLAG);
 
     char *dst = reinterpret_cast<char*>(attr+1); // just after this element
-    memcpy(dst,value,XBT_Size2(attr_type,0));
+    memcpy(dst,value,XBT_FIXEDSIZE(attr_type)); // XBT_Size2 is padded
 
     add(attr);
 
-- 
2.43.0


From 278eaf7858556b1e255ad1ac1c569c2e025f777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 16/65] fix: Clear must succeed wherever the symbol tables lie
 in the pool

---
 src/bin_write_plugin.cpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 84d3ccd..a296327 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2351,27 +2351,17 @@ bool BW_plugin::Clear()
     // this is requested situation
     char *tags_dst = reinterpret_cast<char*>(pool+1);
     char *params_dst = tags_dst+tags_size;
-    // Is it possible to have situatiation, which cannot be solved by this code?
+    // Tables can lie in any order and can overlap both destinations
     // -------[PARAMS----][TAGS------------]
-    // Yes - when between old params and new TAGS is not enough space for growth TAGS
+    // so they are moved via temporary copy
+    char *names = reinterpret_cast<char*>(malloc(tags_size+params_size+1));
+    ASSERT_NO_RET_FALSE(2103,names != nullptr);
+    memcpy(names,tags_src,tags_size);
+    memcpy(names+tags_size,params_src,params_size);
+    memcpy(tags_dst,names,tags_size);
+    memcpy(params_dst,names+tags_size,params_size);
+    free(names);
 
-    if (tags_src > tags_dst && tags_src < tags_dst + tags_size + params_size)
-    { // copy params to new place
-        char *params2_src = reinterpret_cast<char*>(pool->allocate(params_size));
-        ASSERT_NO_RET_FALSE(2103,params2_src);
-        memcpy(params2_src,params_src,params_size);
-        params_src = params2_src;
-    }
-    if (tags_src != tags_dst)
-    {
-        ASSERT_NO_RET_FALSE(2104,(tags_dst >= params_src + params_size) || (tags_dst + tags_size <= params_src));
-        memmove(tags_dst,tags_src,tags_size);
-    }
-    if (params_src != params_dst)
-    {
-        ASSERT_NO_RET_FALSE(2105,(params_dst >= tags_src + tags_size) || (params_dst + params_size <= tags_src));
-        memmove(params_dst,params_src,params_size);
-    }
     pool->tags.names_offset = sizeof(*pool);
     pool->tags.index = 0; // to be constructed
     pool->params.names_offset = sizeof(*pool)+tags_size;
@@ -2384,6 +2374,7 @@ bool BW_plugin::Clear()
         memset((char*)pool+new_size,0,old_size - new_size); // clear memory
 
     
+    ASSERT_NO_RET_FALSE(2104,makeSpace(sizeof(int32_t)*(pool->tags.max_id+1+pool->params.max_id+1)));
     ASSERT_NO_RET_FALSE(2106,pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(2107,pool->makeTable(pool->params));
     return true;
-- 
2.43.0


From 54335ad0a1c07b9e48f67ce6c3548aa6ffc16e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 17/65] fix: check of registration in a re-opened pool must not
 depend on index tables (empty or not yet built)

---
 src/bin_write_plugin.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index a296327..f97a29b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2038,13 +2038,13 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     if (check_only)
     {
         bool ok1 = (id >= 0 && id <= pool->tags.max_id);
-        const char *name_stored = pool->getTagName(id);
+        const char *name_stored = ok1 ? pool->tags.getName(pool,id) : nullptr; // index need not be ready
         bool ok2 = name_stored != nullptr && strcmp(name,name_stored) == 0;
-        XML_Binary_Type type_stored = pool->getTagType(id);
+        XML_Binary_Type type_stored = ok2 ? static_cast<XML_Binary_Type>(*pool->tags.getType(pool,id)) : XBT_UNKNOWN;
         bool ok3 = (type_stored == type);
         
         if (ok1 && ok2 && ok3) return true; // OK
-        LOG_ERROR("registerTag(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored,XML_BINARY_TYPE_NAMES[type_stored]);
+        LOG_ERROR("registerTag(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored != nullptr ? name_stored : "?",XML_BINARY_TYPE_NAMES[type_stored]);
         check_failures++; 
         return false;
     }
@@ -2089,13 +2089,13 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
     if (check_only)
     {
         bool ok1 = (id >= 0 && id <= pool->params.max_id);
-        const char *name_stored = pool->getAttrName(id);
+        const char *name_stored = ok1 ? pool->params.getName(pool,id) : nullptr; // index need not be ready
         bool ok2 = name_stored != nullptr && strcmp(name,name_stored) == 0;
-        XML_Binary_Type type_stored = pool->getAttrType(id);
+        XML_Binary_Type type_stored = ok2 ? static_cast<XML_Binary_Type>(*pool->params.getType(pool,id)) : XBT_UNKNOWN;
         bool ok3 = (type_stored == type);
         
         if (ok1 && ok2 && ok3) return true; // OK
-        LOG_ERROR("registerAttr(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored,XML_BINARY_TYPE_NAMES[type_stored]);
+        LOG_ERROR("registerAttr(%d,%s,%s) failed - %s/%s",id,name,XML_BINARY_TYPE_NAMES[type],name_stored != nullptr ? name_stored : "?",XML_BINARY_TYPE_NAMES[type_stored]);
         check_failures++; 
         return false;
     }
@@ -2273,12 +2273,9 @@ bool BW_plugin::allRegistered()
 {
     ASSERT_NO_RET_FALSE(1142,makeSpace(BW2_INITIAL_FILE_SIZE));
 //    BW_offset_t names_limit = pool->allocator;
-    if (check_only && pool->tags.index != 0 && pool->params.index != 0)
-        return (check_failures == 0); // no problems?
-
     ASSERT_NO_RET_FALSE(1123,pool->tags.index != 0   || pool->makeTable(pool->tags));
     ASSERT_NO_RET_FALSE(1124,pool->params.index != 0 || pool->makeTable(pool->params));
-    return true;
+    return (check_failures == 0); // no problems?
 }
 
 void BW_plugin::setRoot(const BW_element* X)
-- 
2.43.0


From ab7873c7e9249f9b453aadd922021beeaae22b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 18/65] fix: attrData must ask for space like other attributes
 do

---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index f97a29b..80a0cb9 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -640,6 +640,9 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
         ASSERT_NO_RET_NULL(1995,XBT_FromString(data.data,attr_type,&p,buffer+data.size+64));
         int target_data_size = p - buffer;
 
+        BW_plugin *plugin = plugins.getPlugin(pool);
+        ASSERT_NO_RET_NULL(2140,plugin != nullptr);
+        ASSERT_NO_RET_NULL(2141,plugin->makeSpace(sizeof(BW_element)+target_data_size+16)); // +alignment
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+target_data_size));
         ASSERT_NO_RET_NULL(1996,attr != nullptr);
 
@@ -653,6 +656,9 @@ BW_element*     BW_element::attrData(int16_t id,XML_Binary_Data_Ref &data)
     {
         ASSERT_NO_RET_NULL(1992,attr_type == data.type);
 
+        BW_plugin *plugin = plugins.getPlugin(pool);
+        ASSERT_NO_RET_NULL(2142,plugin != nullptr);
+        ASSERT_NO_RET_NULL(2143,plugin->makeSpace(sizeof(BW_element)+data.size+16)); // +alignment
         BW_element* attr      = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
         ASSERT_NO_RET_NULL(1993,attr != nullptr);
 
-- 
2.43.0


From 9875921a3e421277478cca89ca4085b786be03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 19/65] fix: names registered after an import need not be
 unique

---
 src/bin_write_plugin.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 80a0cb9..284e4d1 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2247,30 +2247,36 @@ void BW_plugin::importTags(XB_reader *src)
     if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
     else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
 
-    if (src == nullptr) return; // OK
+    if (src == nullptr) // OK
+    {
+        pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
+        return;
+    }
 
     for(int i = 0;i < src->tag_symbols.count;i++)
         registerTag(
                 src->tag_symbols.getSymbol(i),
                 static_cast<XML_Binary_Type>(src->tag_symbols.getType(i)));
 
-    if (pool->tags.max_id == -1) pool->tags.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->tags.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->tags.flags &= ~BW_SYMBOLS_FAST_REG; // next names need not be unique
 }
 
 void BW_plugin::importParams(XB_reader *src)
 {
     if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
     else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
-    if (src == nullptr) return; // OK
+    if (src == nullptr) // OK
+    {
+        pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
+        return;
+    }
 
     for(int i = 0;i < src->param_symbols.count;i++)
         registerParam(src->param_symbols.
             getSymbol(i),
             static_cast<XML_Binary_Type>(src->param_symbols.getType(i)));
 
-    if (pool->params.max_id == -1) pool->params.flags |= BW_SYMBOLS_FAST_REG;
-    else pool->params.flags &= ~BW_SYMBOLS_FAST_REG;
+    pool->params.flags &= ~BW_SYMBOLS_FAST_REG; // next names need not be unique
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From 4d5a473648b36e3369c7afa2b3871ee03b15d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 20/65] fix: space for a new element must include its alignment

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 284e4d1..e8503f8 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1707,7 +1707,7 @@ BW_element*     BW_pool::new_element(XML_Binary_Type type,int size)
     {
         BW_plugin *plugin = plugins.getPlugin(this);
         ASSERT_NO_RET_NULL(2012,plugin != nullptr);
-        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2));
+        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2+16)); // +alignment
         result = reinterpret_cast<BW_element*>(align == 8 ? allocate8(sizeof(BW_element)+size2) : allocate(sizeof(BW_element)+size2));
         ASSERT_NO_RET_NULL(2091,result != nullptr);
         if (result == nullptr) return nullptr; // error message already shown in allocate
-- 
2.43.0


From 519fd2a2d3b66ef662a40f6af4fb789d4b59bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 21/65] fix: getters must not give access to a value the
 element does not have

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e8503f8..d829c2c 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -930,7 +930,7 @@ int32_t *BW_element::getInt32()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (!XBT_IS_4(attr_type))
+    if (!XBT_IS_4(attr_type) || !XBT_IS_4(value_type))
     {
         LOG_ERROR("[1173] +%d %s'type = %d = %s but XBT_INT32 is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -945,7 +945,7 @@ float *BW_element::getFloat()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_FLOAT)
+    if (attr_type != XBT_FLOAT || !XBT_IS_4(value_type))
     {
         LOG_ERROR("[10430] +%d %s'type = %d = %s but XBT_FLOAT is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -960,7 +960,7 @@ time_t *BW_element::getTime()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_UNIX_TIME)
+    if (attr_type != XBT_UNIX_TIME || !XBT_IS_4(value_type))
     {
         LOG_ERROR("[2122] +%d %s'type = %d = %s but XBT_UNIX_TIME is expected!",offset,getName(),attr_type,XBT2STR(attr_type));
         return nullptr;
@@ -975,7 +975,7 @@ int64_t *BW_element::getInt64()
 
 //    BW_pool             *pool = getPool();    
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_INT64 && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC)
+    if ((attr_type != XBT_INT64 || !XBT_IS_8(value_type)) && value_type != XBT_INT64 && value_type != XBT_UNIX_TIME64_MSEC)
     {
         //ASSERT_NO_RET_NULL(2026,attr_type == XBT_INT64 || value_type == XBT_INT64);// || attr_type == XBT_VARIANT);
         LOG_ERROR("[2026] +%d %s'type = %d/%d = %s/%s but XBT_INT64/XBT_UNIX_TIME64_MSEC is expected!",
@@ -993,7 +993,7 @@ uint64_t *BW_element::getUInt64()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_UINT64)
+    if (attr_type != XBT_UINT64 || !XBT_IS_8(value_type))
     {
         LOG_ERROR("[2096] +%d %s'type = %d/%d = %s/%s but XBT_UINT64 is expected!",offset,getName(),
         attr_type,value_type,XBT2STR(attr_type),XBT2STR(value_type));
@@ -1008,7 +1008,7 @@ GUID_t *BW_element::getGUID()
     if (THIS_IS_NULL) return nullptr;
 
     XML_Binary_Type     attr_type = getSymbolType();
-    if (attr_type != XBT_GUID)
+    if (attr_type != XBT_GUID || value_type != XBT_GUID)
     {
         LOG_ERROR("[10435] +%d %s'type = %d/%d = %s/%s but XBT_GUID is expected!",offset,getName(),
         attr_type,value_type,XBT2STR(attr_type),XBT2STR(value_type));
-- 
2.43.0


From e4716c1808f51ef4e7da0ce30345f2a06682e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 22/65] fix: error message about an unregistered root name must
 not ask for that name again

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d829c2c..8a6e8bc 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1645,7 +1645,7 @@ const char *BW_pool::getDocTypeName()
     {
         BW_element *root = BWE(this->root);   
         ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
-        const char *name = tags.getName(this,root->identification);    
+        const char *name = root->identification <= tags.max_id ? tags.getName(this,root->identification) : nullptr; // getName reports unknown id with this name
         if (name != nullptr) return name;
     }
 // OK, no root name - so some early stage
-- 
2.43.0


From 2a6614675e10d00b5e4a3d73168ed5c415d2af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 23/65] fix: closing bracket without an open one is invalid
 JSON even after ':' made a closed container the parent

---
 src/jsmn/jsmn.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jsmn/jsmn.c b/src/jsmn/jsmn.c
index e399c06..d8f10c5 100644
--- a/src/jsmn/jsmn.c
+++ b/src/jsmn/jsmn.c
@@ -198,10 +198,7 @@ int jsmn_parse(jsmn_parser *parser, const char *js, size_t len,
 						break;
 					}
 					if (token->parent == -1) {
-						if(token->type != type || parser->toksuper == -1) {
-							return JSMN_ERROR_INVAL;
-						}
-						break;
+						return JSMN_ERROR_INVAL;
 					}
 					token = &tokens[token->parent];
 				}
-- 
2.43.0


From c5f066c628eaeb7da8b9bfa5a8bd3474de86280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 24/65] fix: qsort_r2 must keep the pivot value, it moved while
 elements were exchanged

---
 src/missings.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index fadb263..258ac17 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -20,28 +20,29 @@ void qsort_r2(void *base, int nmemb, int size,
 {
     if (nmemb < 2) return;
 
-    char *temp = (char*)alloca(size);
+    char *temp = (char*)alloca(2*size);
+    char *test = temp + size;
 #define BASE(idx) ((char*)base + (size)*(idx))
 
-    int test = nmemb / 2;
+    memcpy(test,BASE(nmemb / 2),size); // the element itself can be moved
 
     int left = 0;
     int right = nmemb - 1;
-    for(;;)
+    while (left <= right)
     {
-        while (compar(BASE(left),BASE(test),arg) < 0 && left < right) left++;
-        while (compar(BASE(right),BASE(test),arg) > 0 && left < right) right--;
+        while (compar(BASE(left),test,arg) < 0) left++;
+        while (compar(BASE(right),test,arg) > 0) right--;
 
-        if (left >= right) break;
+        if (left > right) break;
 
         memcpy(temp,BASE(left),size);
-        memcpy(BASE(left),BASE(right),size);
+        memmove(BASE(left),BASE(right),size);
         memcpy(BASE(right),temp,size);
         left++;
         right--;
     }
 
-    qsort_r2(base, left,                size,compar,arg);
+    qsort_r2(base, right + 1,           size,compar,arg);
     qsort_r2(BASE(left), nmemb - left,  size,compar,arg);
 #undef BASE
 }
-- 
2.43.0


From 2e4553e1a5a9d262cb906298bc5a8c9497bf6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 25/65] fix: mergesort_r2 must not put a copy of the whole
 array on the stack

---
 src/missings.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/missings.cpp b/src/missings.cpp
index 258ac17..ecfd00e 100644
--- a/src/missings.cpp
+++ b/src/missings.cpp
@@ -51,10 +51,18 @@ void mergesort_r2(void *base, int nmemb, int size,
                   int (*compar)(const void *, const void *, void *),
                   void *arg)
 {
+    if (nmemb < 2) return;
+
     void *src = base;
-    void *dst = alloca(size*nmemb);
-#define SRC(idx) ((char*)src + (size)*(idx))
-#define DST(idx) ((char*)dst + (size)*(idx))
+    void *tmp_buffer = malloc((size_t)size*nmemb);
+    if (tmp_buffer == nullptr)
+    {
+        ERRNO_SHOW(1980,"malloc","mergesort_r2");
+        return;
+    }
+    void *dst = tmp_buffer;
+#define SRC(idx) ((char*)src + (size_t)(size)*(idx))
+#define DST(idx) ((char*)dst + (size_t)(size)*(idx))
     for(int merge_len = 1;merge_len < nmemb;merge_len <<= 1)
     {
         int D = 0;
@@ -107,7 +115,8 @@ void mergesort_r2(void *base, int nmemb, int size,
 #undef SRC
 #undef DST
     if (dst == base)
-        memcpy(base,src,size * nmemb);
+        memcpy(base,src,(size_t)size * nmemb);
+    free(tmp_buffer);
 }
 
 
-- 
2.43.0


From f40af39804072382f85669cda41584166c510c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 26/65] fix: numbers that do not fit must not be scanned as
 different ones

---
 src/utils.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..a1bb558 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -286,12 +286,15 @@ bool ScanInt(const char *&p,int &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int x = 0;
+    int64_t x = 0;
     while (isdigit(*p1))
+    {
         x = x *10 + (*(p1++) - '0');
+        if (x > (neg ? 0x80000000LL : 0x7fffffffLL)) return false; // out of range
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = static_cast<int>(neg ? -x : x);
     return true;
 }
 
@@ -301,14 +304,14 @@ bool ScanIPv4(const char *&p,uint32_t &value)
     int A,B,C,D; // A.B.C.D
     const char *p2 = p;
     if (ScanInt(p2,A) && A >= 0 && A < 256 &&
-        *p2++ == '.' &&
+        *p2++ == '.' && isdigit(*p2) &&
         ScanInt(p2,B) &&  B >= 0 && B < 256 &&
-        *p2++ == '.' &&
+        *p2++ == '.' && isdigit(*p2) &&
         ScanInt(p2,C) &&  C >= 0 && C < 256 &&
-        *p2++ == '.' &&
+        *p2++ == '.' && isdigit(*p2) &&
         ScanInt(p2,D) && D >= 0 && D < 256)
     {
-        value = (A << 24) | (B << 16) | (C << 8) | D;
+        value = ((uint32_t)A << 24) | (B << 16) | (C << 8) | D;
         p = p2;
         return true;
     }
@@ -324,12 +327,17 @@ bool ScanInt64(const char *&p,int64_t &value)
     if (neg) p1++;
     if (!isdigit(*p1)) return false;
 
-    int64_t x = 0;
+    const uint64_t limit = neg ? 0x8000000000000000ULL : 0x7fffffffffffffffULL;
+    uint64_t x = 0;
     while (isdigit(*p1))
-        x = x *10 + (*(p1++) - '0');
+    {
+        unsigned digit = *(p1++) - '0';
+        if (x > (limit - digit) / 10) return false; // out of range
+        x = x *10 + digit;
+    }
     
     p = p1;
-    value = (neg ? -x : x);
+    value = static_cast<int64_t>(neg ? 0 - x : x);
     return true;
 }
 
@@ -345,6 +353,7 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         if (!isxdigit(*p1)) return false;
         while (*p1 != '\0')
         {
+            if (isxdigit(*p1) && (x >> 60) != 0) return false; // out of range
             if (*p1 >= '0' && *p1 <= '9')
                 x = (x << 4) + (*(p1++) - '0');
             else if (*p1 >= 'A' && *p1 <= 'F')
@@ -359,7 +368,11 @@ bool ScanUInt64(const char *&p,uint64_t &value)
         if (!isdigit(*p1)) return false;
 
         while (isdigit(*p1))
-            x = x *10 + (*(p1++) - '0');
+        {
+            unsigned digit = *(p1++) - '0';
+            if (x > (0xffffffffffffffffULL - digit) / 10) return false; // out of range
+            x = x *10 + digit;
+        }
     }
     
     p = p1;
-- 
2.43.0


From 3cf626aaea8138615b4379c949fef77eed93791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 27/65] fix: dates before 1969 were shifted by a day,
 impossible dates and times must not be accepted as other ones

---
 src/utils.cpp | 184 ++++++++++++++++++++++++++++----------------------
 1 file changed, 104 insertions(+), 80 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index a1bb558..d495326 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -435,79 +435,121 @@ const int LEAP_MONTH_OFFSET[12] = {
     //    31+29+31+30+31+30+31+31+30+31+30+31,
 };
 
-const int MAX_DAY = 0xffffffff/(24*60*60);
+static bool s_ScanField(const char *&p,int min_value,int max_value,int &value)
+// field of date or time - 1 or 2 digits in given range
+{
+    const char *p1 = p;
+    if (!isdigit(*p1)) return false;
+    value = *(p1++) - '0';
+    if (isdigit(*p1)) value = value*10 + *(p1++) - '0';
+    if (isdigit(*p1)) return false;
+    if (value < min_value || value > max_value) return false;
+    p = p1;
+    return true;
+}
 
-bool ScanUnixTime(const char *&p,uint32_t &value)
+static int s_FloorDiv(int a,int b)
 {
-    value = 0;
-    int year,month,day,hour,minute,second;
+    return a >= 0 ? a / b : -((b - 1 - a) / b);
+}
 
-    const char *beg = p;
+static bool s_ScanDate(const char *&p,int &year,int64_t &value)
+// YYYY-MM-DD --> days from 1970-01-01
+{
+    int month,day;
 
     if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
-    if (!ScanInt(p,month)) return false;    
-    if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
-    if (!ScanInt(p,day)) return false;    
+    if (*p != '-') return false;
+    p++;
+    if (!s_ScanField(p,1,12,month)) return false; // I dont know months out of range
+    if (*p != '-') return false;
+    p++;
+    if (!s_ScanField(p,1,31,day)) return false;
 
-    if (year < 1970) 
+    if (year < -365749 || year > 369689) 
     { 
-        fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970.",year);
+        fprintf(stderr,"Unsupported year %d! Only dates in range -365749 .. 369689 is allowed.",year);
         return false;
     }
 
-    value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
-
     bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
-        value += LEAP_MONTH_OFFSET[month-1];
-    else
-        value += MONTH_OFFSET[month-1];
+    const int *offset = is_leap_year ? LEAP_MONTH_OFFSET : MONTH_OFFSET;
+    int year_days = is_leap_year ? 366 : 365;
+    int month_days = (month < 12 ? offset[month] : year_days) - offset[month-1];
+    if (day > month_days) return false; // there is no such day
+
+    value = (int64_t)(year - 1970) * 365;
+    value += s_FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    value -= s_FloorDiv(year - 1900 - 1,100);
+    value += s_FloorDiv(year - 1600 - 1,400);
+    value += offset[month-1];
     value += day - 1;
+    return true;
+}
 
-    if (value > (uint32_t)MAX_DAY)
-    {
-        fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",beg);
-        return false;
-    }
+static bool s_ScanDateTime(const char *&p,int64_t &value)
+// seconds from 1970-01-01
+{
+    int year,hour,minute,second;
 
+    if (!s_ScanDate(p,year,value)) return false;
     value *= 24*60*60;
 
     if (*p == '\0') return true; // end of string
     if (*p != ' ' && *p != 'T') return false;
     p++;
     
-    if (!ScanInt(p,hour)) return false;    
+    if (!s_ScanField(p,0,23,hour)) return false;    
     value += hour*3600;
     if (*p == '\0') return true; // end of string
-    if (*(p++) != ':') return false;
+    if (*p != ':') return false;
+    p++;
 
-    if (!ScanInt(p,minute)) return false;    
+    if (!s_ScanField(p,0,59,minute)) return false;    
     value += minute*60;
-    if (*(p++) != ':') return false;
+    if (*p != ':') return false;
+    p++;
 
-    if (!ScanInt(p,second)) return false;    
+    if (!s_ScanField(p,0,59,second)) return false;    
     value += second;
     return true;
 }
 
+bool ScanUnixTime(const char *&p,uint32_t &value)
+{
+    const char *beg = p;
+    int64_t seconds;
+
+    value = 0;
+    if (!s_ScanDateTime(p,seconds)) return false;
+    if (seconds < 0)
+    {
+        fprintf(stderr,"Unsupported time %s! Unix epoch starts at 1970.",beg);
+        return false;
+    }
+    if (seconds > 0xffffffffLL)
+    {
+        fprintf(stderr,"Date %s exceed 32 bit unsigned int! Please use different type.",beg);
+        return false;
+    }
+    value = static_cast<uint32_t>(seconds);
+    return true;
+}
+
 bool ScanUnixTime64msec(const char *&p,int64_t &value)
 {
     value = 0;
-    uint32_t tm32;
+    int64_t seconds;
 
     const char *start = p;
 
-    if (!ScanUnixTime(p,tm32)) return false;
-    if (*(p++) != '.') 
+    if (!s_ScanDateTime(p,seconds)) return false;
+    if (*p != '.') 
     {
-        value = (int64_t)tm32*1000; // whole seconds only
+        value = seconds*1000; // whole seconds only
         return true;  // OK
     }
+    p++;
 
     if (*p < '0' || *p > '9') return false;
     int v000 = 100 * (*(p++) - '0');
@@ -520,58 +562,34 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     {
     // skip next decimals
         while (*p >= '0' && *p <= '9') p++;
-        if (*p == 'Z') ;// UTC
+        if (*p == 'Z') p++; // UTC
         else if (*p == '+' || *p == '-')
         {
             char sign = *(p++);
             int hour,min;
-            if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
-            {
-                if (sign == '+')
-                    tm32 -= hour*3600 + min*60; 
-                else
-                    tm32 += hour*3600 + min*60; 
-            }
+            if (!s_ScanField(p,0,23,hour)) return false;
+            if (*p != ':') return false;
+            p++;
+            if (!s_ScanField(p,0,59,min)) return false;
+            if (sign == '+')
+                seconds -= hour*3600 + min*60; 
+            else
+                seconds += hour*3600 + min*60; 
         }
-            
     }
 
-    value = v000 + (int64_t)tm32 * 1000;
+    value = v000 + seconds * 1000;
 
     return true;
 }
 
 bool ScanUnixDate(const char *&p,int32_t &value)
 {
-    int year,month,day;
-
-    //const char *beg = p;
-
-    if (!ScanInt(p,year)) return false;    
-    if (*(p++) != '-') return false;
-    if (!ScanInt(p,month)) return false;    
-    if (month < 1 || month > 12) return false; // I dont know months out of range
-    if (*(p++) != '-') return false;
-    if (!ScanInt(p,day)) return false;    
-
-    if (year < -365749 || year > 369689) 
-    { 
-        fprintf(stderr,"Unsupported year %d! Only dates in range -365749 .. 369689 is allowed.",year);
-        return false;
-    }
-
-    value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
-
-    bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
-    if (is_leap_year)   
-        value += LEAP_MONTH_OFFSET[month-1];
-    else
-        value += MONTH_OFFSET[month-1];
-    value += day - 1;
+    int year;
+    int64_t days;
 
+    if (!s_ScanDate(p,year,days)) return false;
+    value = static_cast<int32_t>(days);
     return true;
 }
 
@@ -612,8 +630,7 @@ char *UnixDate2Str(int32_t value,char *dst)
     value -= 10957; // 1.1.1970 base to 1.1.2000
     int year = 2000;
 
-    int y400 = value / YEARS400_TO_DAYS;
-    if (value < 0) y400--; // 1999 -> 1600..1999
+    int y400 = s_FloorDiv(value,YEARS400_TO_DAYS); // 1999 -> 1600..1999
     value -= y400 * YEARS400_TO_DAYS;
 
 
@@ -657,13 +674,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
@@ -674,9 +691,16 @@ char *UnixDate2Str(int32_t value,char *dst)
 
 char *UnixTime642Str(int64_t value,char *dst)
 {
-    char *p = UnixDate2Str(value / (1000 * 60*60*24),dst);
-    p += strlen(p);
-    value %= 1000 * 60*60*24;
+    const int64_t day_ms = 1000 * 60*60*24;
+    int64_t day = value / day_ms;
+    value %= day_ms;
+    if (value < 0) // before 1970
+    {
+        day--;
+        value += day_ms;
+    }
+    if (UnixDate2Str(static_cast<int32_t>(day),dst) == nullptr) return nullptr;
+    char *p = dst + strlen(dst);
     sprintf(p," %02d:%02d:%02d.%03d",
         (int)((value / (1000 * 60 * 60)) % 24),
         (int)((value / (1000 * 60)) % 60),
-- 
2.43.0


From 02c22b10dc81f8ad27fb0b25680c195d74cf08c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 28/65] fix: text which is not a value of the type must be
 refused, not stored as another value; UINT32, DOUBLE, BLOB and BLOB_STRING
 could not be stored

---
 src/bin_xml_types.cpp | 343 ++++++++++++++++++++++--------------------
 src/utils.cpp         |   5 +-
 2 files changed, 184 insertions(+), 164 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..4f8f8dd 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -3,6 +3,8 @@
 #include <binary_xml/utils.h>
 #include <binary_xml/bin_xml.h>
 #include <assert.h>
+#include <math.h>   // isfinite
+#include <stdlib.h> // strtod
 
 namespace pklib_xml
 {
@@ -469,190 +471,202 @@ bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *lim
     return true; // OK
 }
 
-static int32_t str2dec(const char *src,int decimals)
+static bool s_ScanDec(const char *&src,int decimals,int32_t &value)
+// decimal number scaled by 10^decimals, it must be stored without loss
 {
-    bool neg = (*src == '-');
-    if (neg) src++;
-
-    int32_t value = 0;
-    while (*src >= '0' && *src <= '9')
+    const char *p = src;
+    bool neg = (*p == '-');
+    if (neg) p++;
+    if (*p < '0' || *p > '9') return false;
+
+    const int64_t limit = neg ? 0x80000000LL : 0x7fffffffLL;
+    int64_t v = 0;
+    while (*p >= '0' && *p <= '9')
     {
-        value = value * 10 + (*src) - '0';
-        src++;
+        v = v * 10 + (*(p++) - '0');
+        if (v > limit) return false; // out of range
     }
-    if (*src == '.') // decimal point
+    if (*p == '.') // decimal point
     {
-        src++;
-        while (*src >= '0' && *src <= '9' && decimals > 0)
+        p++;
+        while (*p >= '0' && *p <= '9')
         {
-            value = value * 10 + (*src) - '0';
-            src++;
-            decimals--;
+            if (decimals > 0)
+            {
+                v = v * 10 + (*p - '0');
+                if (v > limit) return false; // out of range
+                decimals--;
+            }
+            else if (*p != '0') return false; // this digit would be lost
+            p++;
         }
     }
-    while (decimals > 0)
+    for(;decimals > 0;decimals--)
+    {
+        v *= 10;
+        if (v > limit) return false; // out of range
+    }
+    src = p;
+    value = static_cast<int32_t>(neg ? -v : v);
+    return true;
+}
+
+static bool s_IsFloatText(const char *p,bool &zero)
+// only decimal notation: -123.456E-12
+{
+    zero = true;
+    if (*p == '-' || *p == '+') p++;
+    int digits = 0;
+    while (*p >= '0' && *p <= '9') { if (*(p++) != '0') zero = false; digits++; }
+    if (*p == '.')
+    {
+        p++;
+        while (*p >= '0' && *p <= '9') { if (*(p++) != '0') zero = false; digits++; }
+    }
+    if (digits == 0) return false;
+    if (*p == 'E' || *p == 'e')
     {
-        value *= 10;
-        decimals--;
+        p++;
+        if (*p == '-' || *p == '+') p++;
+        if (*p < '0' || *p > '9') return false;
+        while (*p >= '0' && *p <= '9') p++;
     }
+    return *p == '\0';
+}
 
-    if (neg) return -value;
-    return value;
+static char *s_Place(char *wp,char *limit,int align,int size)
+// where the value will be stored
+{
+    if (align == 4)
+        AA(wp);
+    else if (align == 8)
+        AA8(wp);
+    return limit - wp >= size ? wp : nullptr;
+}
+
+template <typename T> static bool s_Store(T value,char *dst,char **_wp)
+{
+    *reinterpret_cast<T*>(dst) = value;
+    *_wp = dst + sizeof(T);
+    return true;
 }
 
 bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
+// src must be the text of one value of that type and nothing else
 {
-    switch (type)
+    if (type == XBT_NULL && (src == nullptr || *src == '\0')) return true; // OK, should be empty
+
+    const int size = src == nullptr ? -1 : XBT_SizeFromString(src,type);
+    char *dst = size < 0 ? nullptr : s_Place(*_wp,limit,XBT_Align(type),XBT_Size2(type,size) - (type == XBT_SHA1 ? 4/*padding*/ : 0));
+    if (dst != nullptr)
     {
-        case XBT_NULL:
-            if (src == nullptr) return true; // OK, should be empty
-            if (strlen(src) == 0) return true;
-            fprintf(stderr,"%s: Conversion of value '%s' to binary representation is not defined!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
-            break;
-            
-        case XBT_INT32:
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = atoi(src);
-            *_wp += sizeof(int32_t);
-            return true;
-        
-        case XBT_INT32_DECI:
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,1);
-            *_wp += sizeof(int32_t);
-            return true;
-        case XBT_INT32_CENTI:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,2);
-            *_wp += sizeof(int32_t);
-            return true;
-        case XBT_INT32_MILI:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,3);
-            *_wp += sizeof(int32_t);
-            return true;
-        case XBT_INT32_MICRO:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,6);
-            *_wp += sizeof(int32_t);
-            return true;
-        case XBT_INT32_NANO:     
-            AA(*_wp);
-            *reinterpret_cast<int32_t*>(*_wp) = str2dec(src,9);
-            *_wp += sizeof(int32_t);
-            return true;
-        case XBT_IPv4:     
-            {
-                AA(*_wp);
-                uint32_t ip_addr;
-                if (ScanIPv4(src,ip_addr))
+        const char *p = src;
+        int32_t v32;
+        uint32_t u32;
+        int64_t v64;
+        uint64_t u64;
+
+        switch (type)
+        {
+            case XBT_INT32:
+                if (ScanInt(p,v32) && *p == '\0') return s_Store(v32,dst,_wp);
+                break;
+            case XBT_UINT32:
+                if (ScanInt64(p,v64) && *p == '\0' && v64 >= 0 && v64 <= 0xffffffffLL) return s_Store(static_cast<uint32_t>(v64),dst,_wp);
+                break;
+            case XBT_INT32_DECI:
+                if (s_ScanDec(p,1,v32) && *p == '\0') return s_Store(v32,dst,_wp);
+                break;
+            case XBT_INT32_CENTI:     
+                if (s_ScanDec(p,2,v32) && *p == '\0') return s_Store(v32,dst,_wp);
+                break;
+            case XBT_INT32_MILI:     
+                if (s_ScanDec(p,3,v32) && *p == '\0') return s_Store(v32,dst,_wp);
+                break;
+            case XBT_INT32_MICRO:     
+                if (s_ScanDec(p,6,v32) && *p == '\0') return s_Store(v32,dst,_wp);
+                break;
+            case XBT_INT32_NANO:     
+                if (s_ScanDec(p,9,v32) && *p == '\0') return s_Store(v32,dst,_wp);
+                break;
+            case XBT_IPv4:     
+                if (ScanIPv4(p,u32) && *p == '\0') return s_Store(u32,dst,_wp);
+                break;
+            case XBT_INT64:
+                if (ScanInt64(p,v64) && *p == '\0') return s_Store(v64,dst,_wp);
+                break;
+            case XBT_UINT64:
+                if (ScanUInt64(p,u64) && *p == '\0') return s_Store(u64,dst,_wp);
+                break;
+            case XBT_FLOAT:
                 {
-                    *reinterpret_cast<int32_t*>(*_wp) = ip_addr;
-                    *_wp += sizeof(int32_t);
-                    return true;
+                    bool zero;
+                    if (!s_IsFloatText(src,zero)) break;
+                    float v = strtof(src,nullptr);
+                    if (isfinite(v) && (v == 0) == zero) return s_Store(v,dst,_wp);
+                    break; // out of range
                 }
-                fprintf(stderr,"%s: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
-                return false;
-                //bool ScanIPv4(const char *&p,uint32_t &value)
-            }
-
-        case XBT_INT64:
-            {
-                int64_t v;
-                ASSERT_NO_RET_FALSE(2022,ScanInt64(src,v));
-                AA8(*_wp);
-                *reinterpret_cast<int64_t*>(*_wp) = v;
-                *_wp += sizeof(int64_t);
-                return true;
-            }
-        case XBT_UINT64:
-            {
-                uint64_t v;
-                ASSERT_NO_RET_FALSE(2124,ScanUInt64(src,v));
-                AA8(*_wp);
-                *reinterpret_cast<uint64_t*>(*_wp) = v;
-                *_wp += sizeof(uint64_t);
-                return true;
-            }
-            
-        case XBT_STRING:
-            strcpy(*_wp,src);
-            *_wp += strlen(src)+1;
-            return true;
-        case XBT_GUID:
-            {
-                AA(*_wp);
-                int scanned = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),16);
-                *_wp += scanned;
-                return scanned == 16;
-            }
-        case XBT_SHA1:
-            {
-                AA(*_wp);
-                int scanned = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),20);
-                *_wp += scanned;
-                return scanned == 20;
-            }
-        case XBT_HEX:
-            {
-                AA(*_wp);
-                int32_t *size = reinterpret_cast<int32_t*>(*_wp);
-                *_wp += sizeof(int32_t);
-                *size = ScanHex(src,reinterpret_cast<uint8_t *>(*_wp),limit - *_wp);
-                *_wp += *size;
-                return true;
-            }
-        case XBT_FLOAT:
-            AA(*_wp);
-            *reinterpret_cast<float*>(*_wp) = atof(src);
-            *_wp += sizeof(float);
-            return true;
-        case XBT_UNIX_TIME:
-            {
-                AA(*_wp);
-                uint32_t tm0;
-                if (!ScanUnixTime(src,tm0))
+            case XBT_DOUBLE:
                 {
-                    fprintf(stderr,"UNIX_TIME: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
-                    return false;
+                    bool zero;
+                    if (!s_IsFloatText(src,zero)) break;
+                    double v = strtod(src,nullptr);
+                    if (isfinite(v) && (v == 0) == zero) return s_Store(v,dst,_wp);
+                    break; // out of range
                 }
-                *reinterpret_cast<uint32_t*>(*_wp) = tm0;
-                *_wp += sizeof(uint32_t);
+            case XBT_UNIX_TIME:
+                if (ScanUnixTime(p,u32) && *p == '\0') return s_Store(u32,dst,_wp);
+                break;
+            case XBT_UNIX_TIME64_MSEC:
+                if (ScanUnixTime64msec(p,v64) && *p == '\0') return s_Store(v64,dst,_wp);
+                break;
+            case XBT_UNIX_DATE:
+                if (ScanUnixDate(p,v32) && *p == '\0') return s_Store(v32,dst,_wp);
+                break;
+            case XBT_STRING:
+                strcpy(dst,src);
+                *_wp = dst + size + 1;
                 return true;
-            }
-        case XBT_UNIX_TIME64_MSEC:
-            {
-                AA(*_wp);
-                int64_t tm0;
-                if (!ScanUnixTime64msec(src,tm0))
+            case XBT_BLOB_STRING:
                 {
-                    fprintf(stderr,"UNIX_TIME64_MSEC: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
-                    return false;
+                    int allocated = XBT_Size2(type,size) - sizeof(int32_t);
+                    *reinterpret_cast<int32_t*>(dst) = allocated;
+                    memset(dst + sizeof(int32_t),0,allocated);
+                    strcpy(dst + sizeof(int32_t),src);
+                    *_wp = dst + sizeof(int32_t) + allocated;
+                    return true;
                 }
-                *reinterpret_cast<int64_t*>(*_wp) = tm0;
-                *_wp += sizeof(int64_t);
-                return true;
-            }
-        case XBT_UNIX_DATE:
-            {
-                AA(*_wp);
-                int32_t dt0;
-                if (!ScanUnixDate(src,dt0))
+            case XBT_BLOB:
                 {
-                    fprintf(stderr,"UNIX_DATE: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
-                    return false;
+                    int decoded = base64_decode(reinterpret_cast<const unsigned char *>(src),strlen(src),dst + sizeof(int32_t),size);
+                    if (decoded != size) break; // not base64
+                    *reinterpret_cast<int32_t*>(dst) = size;
+                    *_wp = dst + sizeof(int32_t) + size;
+                    return true;
                 }
-                *reinterpret_cast<int32_t*>(*_wp) = dt0;
-                *_wp += sizeof(int32_t);
-                return true;
-            }
-        default:
-            fprintf(stderr,"%s: Conversion of value '%s' to binary representation is not defined!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src);
-//            assert(false);
-            return false;
-    // TODO: support all types!
+            case XBT_GUID:
+            case XBT_SHA1:
+                if (ScanHex(p,reinterpret_cast<uint8_t *>(dst),size) == size && *p == '\0')
+                {
+                    *_wp = dst + size;
+                    return true;
+                }
+                break;
+            case XBT_HEX:
+                {
+                    int scanned = ScanHex(p,reinterpret_cast<uint8_t *>(dst + sizeof(int32_t)),size);
+                    if (*p != '\0') break; // something more than hexadecimal digits
+                    *reinterpret_cast<int32_t*>(dst) = scanned;
+                    *_wp = dst + sizeof(int32_t) + scanned;
+                    return true;
+                }
+            default:
+                break;
+        }
     }
+    fprintf(stderr,"%s: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,XML_BINARY_TYPE_NAMES[type],src == nullptr ? "(null)" : src);
     return false;
+    // TODO: support all types!
 }
 
 int XBT_SizeFromString(const char *src,XML_Binary_Type type)
@@ -683,10 +697,15 @@ int XBT_SizeFromString(const char *src,XML_Binary_Type type)
         case XBT_UINT64: return 8;
 
         case XBT_BLOB_STRING:
-            return XBT_GetBLOB_STRING_Size(strlen(src));
-        case XBT_BLOB:
-            ASSERT_NO_RET_N1(2057,NOT_IMPLEMENTED);
-            break;
+            return strlen(src); // space is rounded up in XBT_Size2
+        case XBT_BLOB: // base64
+            {
+                int len = strlen(src);
+                if ((len & 3) != 0) return -1;
+                int padding = 0;
+                while (padding < 2 && padding < len && src[len-1-padding] == '=') padding++;
+                return (len >> 2) * 3 - padding;
+            }
         case XBT_HEX:
             return (strlen(src)+1) >> 1;
         default:
diff --git a/src/utils.cpp b/src/utils.cpp
index d495326..3ec5c6c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -801,8 +801,9 @@ int ScanHex(const char *&p,uint8_t *dst,int dst_size)
     if (*p == '\0') return false;
     for(int count = 0;count < dst_size;count++)
     {
-        if (p[0] == '-') p++;
-        else if (p[0] == ' ') p++;
+        if (count == 0) ; // nothing to separate yet
+        else if (p[0] == '-') p++;
+        else while (isspace(p[0])) p++;
 
         int value = 0;
         if (p[0] >= '0' && p[0] <= '9')
-- 
2.43.0


From 245bb8d95cf5458a536435852242283a24ec73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 29/65] fix: texts of negative decimals, 64 bit numbers,
 floats, times, GUIDs and hexadecimal lines must denote the value (sign,
 precision, terminator, dashes)

---
 src/bin_xml_types.cpp | 165 ++++++++++++++++--------------------------
 1 file changed, 61 insertions(+), 104 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 4f8f8dd..ab73b76 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -440,7 +440,7 @@ int XBT_Align(XML_Binary_Type type)
 
 bool XBT_Copy(const char *src,XML_Binary_Type type,int size,char **_wp,char *limit)
 {
-    int value_size = XBT_Size2(type,size);
+    int value_size = XBT_IS_VARSIZE(type) ? size + static_cast<int>(sizeof(int32_t)) : XBT_Size2(type,size); // size of BLOB_STRING is already rounded up
     int align_size = XBT_Align(type);
     if (limit - *_wp < value_size + align_size) 
     {
@@ -750,6 +750,8 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
+        case XBT_IPv4:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
@@ -802,8 +804,8 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
 
                     src += line_size;
                     d += line_size*2;
-                    *(d++) = '\n';
                     size -= line_size;
+                    if (size > 0) *(d++) = '\n';
                 }
                 *(d++) = '\0';
                 return dst;
@@ -816,6 +818,14 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
     return nullptr;
 }
 
+static int s_ShortExponent(char *number)
+// 1E+20 --> 1E20 - the form known by XBT_Detect
+{
+    char *plus = strchr(number,'+');
+    if (plus != nullptr) memmove(plus,plus+1,strlen(plus));
+    return strlen(number);
+}
+
 int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size)
 {
     ASSERT_NO_RET_N1(1203,dst != nullptr);
@@ -868,48 +878,20 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             snprintf(dst,dst_size,"%d",*reinterpret_cast<const int32_t*>(data));
             return strlen(dst);
         case XBT_INT32_DECI:
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
-
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
-                return strlen(dst);
-            }
         case XBT_INT32_CENTI:     
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
-
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
-                return strlen(dst);
-            }
         case XBT_INT32_MILI:     
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
-
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
-                return strlen(dst);
-            }
         case XBT_INT32_MICRO:     
-            {
-                if (offset > 0) return 0;
-                offset += sizeof(int32_t);
-                int32_t V = *reinterpret_cast<const int32_t*>(data);
-
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
-                return strlen(dst);
-            }
         case XBT_INT32_NANO:     
             {
                 if (offset > 0) return 0;
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
+                int decimals = (type == XBT_INT32_DECI ? 1 : (type == XBT_INT32_CENTI ? 2 : (type == XBT_INT32_MILI ? 3 : (type == XBT_INT32_MICRO ? 6 : 9))));
+                int64_t scale = 1;
+                for(int d = 0;d < decimals;d++) scale *= 10;
+                int64_t abs_value = V < 0 ? -static_cast<int64_t>(V) : V;
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
+                snprintf(dst,dst_size,"%s%d.%0*d",V < 0 ? "-" : "",static_cast<int>(abs_value / scale),decimals,static_cast<int>(abs_value % scale));
                 return strlen(dst);
             }
 
@@ -931,64 +913,43 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 return strlen(dst);
             } 
         case XBT_INT64:
+            if (offset > 0) return 0;
+            offset += sizeof(int64_t);
+
+            snprintf(dst,dst_size,"%lld",static_cast<long long>(*reinterpret_cast<const int64_t*>(data)));
+            return strlen(dst);
+        case XBT_UINT64:
+            if (offset > 0) return 0;
+            offset += sizeof(uint64_t);
+
+            snprintf(dst,dst_size,"%llu",static_cast<unsigned long long>(*reinterpret_cast<const uint64_t*>(data)));
+            return strlen(dst);
+        case XBT_FLOAT:
             {
                 if (offset > 0) return 0;
-                offset += sizeof(int64_t);
+                offset += sizeof(float);
 
-                int64_t value = *reinterpret_cast<const int64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                if (value == -576460752303423488) 
-                {
-                    strcpy(dst,"9223372036854775808");
-                    return strlen(dst);
-                }
-                //if (value == -0x8000000000000000) return "9223372036854775808";
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                bool neg = (value < 0);
-                if (neg) value = -value;
-                while (value > 0)
+                float value = *reinterpret_cast<const float*>(data);
+                for(int precision = 6;precision <= 9;precision++) // the shortest text of this value
                 {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
+                    snprintf(dst,dst_size,"%.*G",precision,value);
+                    if (strtof(dst,nullptr) == value) break;
                 }
-                if (neg) *(--d) = '-';
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                return s_ShortExponent(dst);
             }
-        case XBT_UINT64:
+        case XBT_DOUBLE:
             {
                 if (offset > 0) return 0;
-                offset += sizeof(uint64_t);
+                offset += sizeof(double);
 
-                uint64_t value = *reinterpret_cast<const uint64_t*>(data);   
-                if (value == 0) 
-                {
-                    strcpy(dst,"0");
-                    return 1;
-                }
-                char *d = dst+dst_size;
-                *(--d) = '\0';
-                while (value > 0)
+                double value = *reinterpret_cast<const double*>(data);
+                for(int precision = 15;precision <= 17;precision++) // the shortest text of this value
                 {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
+                    snprintf(dst,dst_size,"%.*G",precision,value);
+                    if (strtod(dst,nullptr) == value) break;
                 }
-                int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
-                return len;
+                return s_ShortExponent(dst);
             }
-        case XBT_FLOAT:
-            if (offset > 0) return 0;
-            offset += sizeof(float);
-
-            snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
-            return strlen(dst);
         case XBT_UNIX_TIME:
             {
                 if (offset > 0) return 0;
@@ -1020,12 +981,14 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 //                LOG("TIME64(%p) --> %08X:%08X",data, *reinterpret_cast<const uint32_t*>(data), *(reinterpret_cast<const uint32_t*>(data)+1));
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
-                time_t tm0 = (time_t)(value/1000);
+                int msec = static_cast<int>(value % 1000);
+                if (msec < 0) msec += 1000; // before 1970
+                time_t tm0 = (time_t)((value - msec)/1000);
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
@@ -1057,33 +1020,27 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     dst[0] = '\0';
                     return 0;
                 }
-            // use offset - only here
-                size -= offset;
-                src  += offset;
+                uint32_t left = size - offset;
+                uint32_t line = left > 16 ? 16 : left; // limited output
+                ASSERT_NO_RET_N1(2126,(int)line*2+2 <= dst_size);
 
-                if (size > 16) size = 16; // limited output
-                ASSERT_NO_RET_N1(2126,(int)size*16+2 <= dst_size);
-
-                Hex2Str(src,size,dst);
+                Hex2Str(src+offset,line,dst);
+                offset += line;
 
                 int hex_len = strlen(dst);
-                dst[hex_len]   = '\n';
-                dst[hex_len+1] = '\0';
-                offset += size;
-                return hex_len+2;
+                if (left > line) // some lines remain
+                {
+                    dst[hex_len++] = '\n';
+                    dst[hex_len]   = '\0';
+                }
+                return hex_len;
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
-                offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                if (offset > 0) return 0;
+                offset += 16;
+                GUID2Str(data,dst);
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From 0fd4366f2d4f379dcdc0d70ec1de2ffa70cd5e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 30/65] fix: detected type of a text must be able to keep it
 (0x10 was 10, Cafe was hexadecimal, long numbers lost digits, impossible
 dates...)

---
 src/bin_xml_types.cpp | 260 +++++++++++++++++++++---------------------
 1 file changed, 131 insertions(+), 129 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index ab73b76..ca5b93d 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -4,6 +4,8 @@
 #include <binary_xml/bin_xml.h>
 #include <assert.h>
 #include <math.h>   // isfinite
+#include <float.h>  // FLT_MIN
+#include <limits.h>
 #include <stdlib.h> // strtod
 
 namespace pklib_xml
@@ -48,157 +50,157 @@ const char *XML_BINARY_TYPE_NAMES[XBT_LAST+1] = {
     XBT_ARRAY   = 127   // when used this bitmask, data consist of many values of base type
 #endif
 
-XML_Binary_Type XBT_Detect(const char *value,bool verbose)
+static XML_Binary_Type s_DetectNumber(const char *p)
+// number types able to keep the number, XBT_STRING when there is no such type
 {
-    if (value == nullptr) return XBT_NULL;
-    if (*value == '\0') return XBT_NULL;
-    int hex_prefix = 0;
-    int str_len = strlen(value);
-    int digits = 0;
+    const bool neg = (*p == '-');
+    if (neg) p++;
+    const char *number = p;
+
+    int digits = 0;     // all digits, also in exponent
+    int significant = 0;// digits of mantissa without leading zeros
     int decimals = 0;
-    int hexadigits = 0;
-    int negative = 0;
     int dots = 0;
-    int dashes = 0;
-    int colons = 0;
-    int others = 0;
-    int exponent = 0;
-    int spaces = 0;
-    int whites = 0;
-    int exponent_pos = -1;
-    bool overflow64 = false;
-
-    int len = 0;
-    uint64_t X = 0,X0 = 0,EX = 0;
-
-
-    if (value[0] == '0' && value[1] == 'x')
+    uint64_t X = 0;     // value of mantissa
+    for(;;p++)
     {
-        hex_prefix++;
-        value += 2;
-    }
-
-    for(const char *p = value;*p != '\0';p++)
-    {
-        if (*p == '-')
+        if (*p == '.')
         {
-            if (len == exponent_pos+1) negative++;
-            dashes++;
+            if (dots++ > 0) return XBT_STRING;
         }
         else if (*p >= '0' && *p <= '9')
         {
-            X = X*10 + (*p-'0');
-            if (X < X0) overflow64 = true;
-            X0 = X;
-            EX = EX*10 + (*p-'0');
+            if (significant > 0 || *p != '0') significant++;
+            if (significant <= 19) X = X*10 + (*p-'0'); // 19 digits always fit
             digits++;
-            if (dots > 0)
-                decimals++;
-        }
-        else if (*p >= 'a' && *p <= 'f')
-            hexadigits++;
-        else if (*p >= 'A' && *p <= 'F')
-        {
-            hexadigits++;
-            if (*p == 'E')
-            {
-                exponent_pos = len;
-                EX = 0;
-                exponent++;
-            }
-        }
-        else if (*p == '.')
-            dots++;
-        else if (*p == ':')
-            colons++;
-        else if (*p == ' ')
-        {
-            spaces++;
-            whites++;
+            if (dots > 0) decimals++;
         }
-        else if (*p == '\n' || *p == '\t' || *p == '\r')
-            whites++;
-        else
-            others++;
+        else break;
     }
-    if (verbose)
-        std::cerr << value << " --> if ("
-                <<     "hex_prefix == " << hex_prefix
-                << " && str_len == " << str_len
-                << " && digits == " << digits
-                << " && decimals == " << decimals
-                << " && hexadigits == " << hexadigits
-                << " && negative == " << negative
-                << " && dots == " << dots
-                << " && dashes == " << dashes
-                << " && colons == " << colons
-                << " && others == " << others
-                << " && exponent == " << exponent
-                << " && spaces == " << spaces
-                << " && whites == " << whites
-                << " && exponent_pos == " << exponent_pos
-                << " && overflow64 == " << overflow64 << "\n";
-
-    if (hex_prefix == 0 && str_len >= 7 && str_len <= 15 && digits >= 4 && hexadigits == 0 && negative == 0 && dots == 3 && dashes == 0 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1 && !overflow64)
-        return XBT_IPv4;
-
-    if (str_len == 10 && digits == 8 && value[4] == '-' && value[7] == '-')
-        return XBT_UNIX_DATE;
-
-
-//if (hex_prefix == 0 && str_len == 11 && digits == 10 && decimals == 0 && hexadigits == 0 && negative == 1 && dots == 0 && dashes == 1 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1 && overflow64 == 0
-
-    if (digits > 0 && digits <= 19 && hexadigits == 0 && negative <= 1 
-            && dots == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && !overflow64)
+    if (digits == 0) return XBT_STRING;
+
+    if (*p == '\0' && dots == 0 && digits <= 19) // integers
     {
-        if (negative == 0 && X <= 0x7fffffff) return XBT_INT32;
-        if (negative == 1 && X <= 0x80000000) return XBT_INT32;
-        if (negative == 0 && (X >> 32) == 0) return XBT_UINT32;
-        if (negative == 0 && X > 0x7fffffffffffffff) return XBT_UINT64;
+        if (!neg && X <= 0x7fffffff) return XBT_INT32;
+        if (neg && X <= 0x80000000) return XBT_INT32;
+        if (!neg && (X >> 32) == 0) return XBT_UINT32;
+        if (!neg && X > 0x7fffffffffffffff) return XBT_UINT64;
+        if (neg && X > 0x8000000000000000) return XBT_STRING;
         return XBT_INT64;
     }
-//    if (hex_prefix == 1 && digits+hexdigits > 0 && hexdigits+digits <= 16 && dots == 0 && dashes == 0 && colons == 0 && others == 0 && exponent == 0 && !overflow64)
-    if (digits > 0 && dots == 1 && hexadigits == 0 && dashes <= 1 && colons == 0 && others == 0 && exponent == 0 && !overflow64)
+    if (*p == '\0' && dots == 1 && significant <= 10 && decimals <= 9) // decimals stored as scaled int32_t
     {
-        if ((negative == 0 && X <= 0x7fffffff) || (negative == 1 && X <= 0x80000000))
+        static const struct { int decimals; XML_Binary_Type type; } SCALED[] = {
+            {1,XBT_INT32_DECI},{2,XBT_INT32_CENTI},{3,XBT_INT32_MILI},{6,XBT_INT32_MICRO},{9,XBT_INT32_NANO}};
+
+        int s = (decimals == 0 || decimals > 6) ? (decimals == 0 ? 3 : 4) : (decimals > 3 ? 3 : decimals-1);
+        uint64_t scaled = X;
+        for(int d = decimals;d < SCALED[s].decimals;d++) scaled *= 10;
+        if (scaled <= 0x7fffffff || (neg && scaled == 0x80000000)) return SCALED[s].type;
+    }
+    int exponent = 0;
+    if (*p == 'E')
+    {
+        p++;
+        if (*p == '-') p++;
+        if (*p < '0' || *p > '9') return XBT_STRING;
+        for(;*p >= '0' && *p <= '9';p++)
         {
-            if (decimals == 1) return XBT_INT32_DECI;
-            if (decimals == 2) return XBT_INT32_CENTI;
-            if (decimals == 3) return XBT_INT32_MILI;
-            if (decimals <= 6) return XBT_INT32_MICRO;
-            if (decimals <= 9) return XBT_INT32_NANO;
+            if (exponent < 10000) exponent = exponent*10 + (*p-'0');
+            digits++;
         }
     }
-    if (digits > 0 && hexadigits-exponent == 0 && negative <= 2
-            && dots <= 1 && dashes <= 2 && colons == 0 && others == 0 && exponent <= 1)
+    else if (dots == 0)
+        return XBT_STRING; // too long integer
+    else
+        exponent = INT_MAX; // decimal number too long for scaled types
+    if (*p != '\0' || significant > 15) return XBT_STRING; // more digits than DOUBLE has
+
+    if (digits < 8 && exponent <= 38)
+    {
+        float f = strtof(number,nullptr);
+        if (X == 0 || (f >= FLT_MIN && f <= FLT_MAX)) return XBT_FLOAT;
+    }
+    double d = strtod(number,nullptr);
+    if (X == 0 || (d >= DBL_MIN && d <= DBL_MAX)) return XBT_DOUBLE;
+    return XBT_STRING;
+}
+
+static bool s_IsHexText(const char *value,int len,bool lower_only)
+{
+    for(int i = 0;i < len;i++)
+    {
+        char c = value[i];
+        if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (!lower_only && c >= 'A' && c <= 'F'))) return false;
+    }
+    return true;
+}
+
+XML_Binary_Type XBT_Detect(const char *value,bool verbose)
+// The detected type is able to keep the value - text made from the binary value denotes the same value.
+{
+    if (value == nullptr) return XBT_NULL;
+    if (*value == '\0') return XBT_NULL;
+    const int str_len = strlen(value);
+
+    XML_Binary_Type number = s_DetectNumber(value);
+    if (verbose)
+        std::cerr << value << " --> str_len == " << str_len << " number type " << XML_BINARY_TYPE_NAMES[number] << "\n";
+    if (number != XBT_STRING) return number;
+
+    const char *p = value;
+    if (str_len >= 7 && str_len <= 15)
     {
-        if (EX > 38 || digits >= 8) return XBT_DOUBLE;  
-        else return XBT_FLOAT;
+        uint32_t ip_addr;
+        char canonical[16];
+        if (ScanIPv4(p,ip_addr) && *p == '\0')
+        {
+            snprintf(canonical,sizeof(canonical),"%u.%u.%u.%u",IPv4TO4U(ip_addr));
+            if (strcmp(canonical,value) == 0) return XBT_IPv4;
+        }
     }
-    if (digits+hexadigits == 40 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0)
+    if (str_len >= 10 && value[0] >= '0' && value[0] <= '9' && value[4] == '-' && value[7] == '-')
     {
-        //        std::cout << ANSI_BLUE_DARK "XBT_SHA1 detected in value " << value << ANSI_RESET_LF;
-        return XBT_SHA1;
+        int32_t date;
+        int64_t time64;
+
+        p = value;
+        if (str_len == 10 && ScanUnixDate(p,date) && *p == '\0') // 2024-12-22
+            return XBT_UNIX_DATE;
+        p = value;
+        if (str_len >= 19 && value[13] == ':' && value[16] == ':' && ScanUnixTime64msec(p,time64) && *p == '\0')
+        {
+            // 2021-06-15 22:41:40
+            if (str_len == 19 && value[10] == ' ' && time64 >= 0 && time64/1000 <= 0xffffffffLL)
+                return XBT_UNIX_TIME;
+            // 2021-06-15 22:41:40.000
+            if (str_len == 23 && value[10] == ' ' && value[19] == '.')
+                return XBT_UNIX_TIME64_MSEC;
+            // 2026-03-20T15:51:55.773Z
+            if (str_len == 24 && value[10] == 'T' && value[19] == '.' && value[23] == 'Z')
+                return XBT_UNIX_TIME64_MSEC;
+        }
     }
-    if (hex_prefix == 0 && str_len == 36 && digits+hexadigits == 32 && decimals == 0 && dots == 0 && dashes == 4 && colons == 0 && others == 0 && exponent == 0 && spaces == 0 && whites == 0 && exponent_pos == -1)
+    if (str_len == 40 && s_IsHexText(value,40,false))
+        return XBT_SHA1;
+    if (str_len == 36 && value[8] == '-' && value[13] == '-' && value[18] == '-' && value[23] == '-' &&
+            s_IsHexText(value,8,false) && s_IsHexText(value+9,4,false) && s_IsHexText(value+14,4,false) &&
+            s_IsHexText(value+19,4,false) && s_IsHexText(value+24,12,false))
         return XBT_GUID;
-    // 2021-06-15 22:41:40
-    if (str_len == 19 && digits == 14 && spaces == 1 && negative == 2 && colons == 2 &&
-            value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':')
-        return XBT_UNIX_TIME;
-    // 2021-06-15 22:41:40.000
-    if (str_len == 23 && digits == 17 && spaces == 1 && negative == 2 && colons == 2 &&
-            value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':' && value[19] == '.')
-        return XBT_UNIX_TIME64_MSEC;
-    // 2026-03-20T15:51:55.773Z
-    if (str_len == 24 && digits == 17 && spaces == 0 && negative == 2 && colons == 2 &&
-            value[10] == 'T' && value[23] == 'Z' &&
-            value[4] == '-' && value[7] == '-' && value[13] == ':' && value[16] == ':' && value[19] == '.')
-        return XBT_UNIX_TIME64_MSEC;
-    // 2024-12-22 - was DISABLED - not fully supported yet
-    if (digits+hexadigits > 0 && negative == 0 && dots == 0 && dashes == 0 && colons == 0 && others == 0) 
-        return XBT_HEX;
-
+    
+    // HEX is printed in lines of 16 bytes
+    p = value;
+    while (s_IsHexText(p,MIN(32,strlen(p)),true))
+    {
+        int len = strlen(p);
+        if (len <= 32) 
+        {
+            if (len == 0 || (len & 1) != 0) break;
+            return XBT_HEX;
+        }
+        p += 32;
+        if (*(p++) != '\n') break;
+    }
     return XBT_STRING;
 }
 
@@ -477,7 +479,7 @@ static bool s_ScanDec(const char *&src,int decimals,int32_t &value)
     const char *p = src;
     bool neg = (*p == '-');
     if (neg) p++;
-    if (*p < '0' || *p > '9') return false;
+    if (!(*p >= '0' && *p <= '9') && !(*p == '.' && p[1] >= '0' && p[1] <= '9')) return false;
 
     const int64_t limit = neg ? 0x80000000LL : 0x7fffffffLL;
     int64_t v = 0;
-- 
2.43.0


From 36213ebc684117ace8442ea4adafa0a96276aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 31/65] fix: comparing must not mix bytes of different types,
 size prefixes and padding; long values and NaN were not ordered

---
 src/bin_write_plugin.cpp |  4 +-
 src/bin_xml_types.cpp    | 92 +++++++++++++++++++++++++++++-----------
 2 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 8a6e8bc..e845e4b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1128,8 +1128,8 @@ BW_element  *BW_element::findChildByParam(int16_t tag_id,int16_t attr_id,XML_Bin
                     if (attr->identification == attr_id) // ok, now I will know!
                     {
                     // I have value_type, data & data_size to compare with ...
-                        int cmp = XBT_Compare(static_cast<XML_Binary_Type>(attr->value_type),reinterpret_cast<void*>(attr+1),
-                                                XBT_Size2(static_cast<XML_Binary_Type>(attr->value_type),0),
+                        XML_Binary_Data_Ref attr_data = attr->getData();
+                        int cmp = XBT_Compare(attr_data.type,attr_data.content,attr_data.content_size,
                                               value_type,data,data_size);
                         if (cmp == 0)
                             return child;
diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index ca5b93d..05dbd32 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -259,55 +259,97 @@ XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected)
     return XBT_JoinTypes(detected,expected);
 }
 
+static int s_Decimals(XML_Binary_Type type)
+// decimals of integer types, -1 for other types
+{
+    switch (type)
+    {
+        case XBT_INT32:
+        case XBT_UINT32:
+        case XBT_INT64:
+        case XBT_UINT64:        return 0;
+        case XBT_INT32_DECI:    return 1;
+        case XBT_INT32_CENTI:   return 2;
+        case XBT_INT32_MILI:    return 3;
+        case XBT_INT32_MICRO:   return 6;
+        case XBT_INT32_NANO:    return 9;
+        default:                return -1;
+    }
+}
+
+template <typename T> static T s_Load(const void *value)
+{
+    T v;
+    memcpy(&v,value,sizeof(T)); // need not be aligned
+    return v;
+}
+
+static __int128 s_ScaledInteger(XML_Binary_Type type,const void *value)
+// value of integer types scaled to 9 decimals
+{
+    __int128 v = (type == XBT_UINT64 ? (__int128)s_Load<uint64_t>(value) :
+                 (type == XBT_INT64 ? (__int128)s_Load<int64_t>(value) :
+                 (type == XBT_UINT32 ? (__int128)s_Load<uint32_t>(value) : (__int128)s_Load<int32_t>(value))));
+    for(int d = s_Decimals(type);d < 9;d++) v *= 10;
+    return v;
+}
+
 int XBT_Compare(XML_Binary_Type A_type,const void *A_value,int A_size,XML_Binary_Type B_type,const void *B_value,int B_size)
+// Values are contents without size prefix. Result is < 0, 0, > 0 or INT_NULL_VALUE, when values are not comparable.
 {
+    if (A_value == nullptr || B_value == nullptr) return INT_NULL_VALUE;
+
+#define RETURN_COMPARE(_a,_b) return (_a) < (_b) ? -1 : ((_a) > (_b) ? 1 : ((_a) == (_b) ? 0 : INT_NULL_VALUE))
 #define RETURN_COMPARE_OF_TYPE(_T) \
     if (A_size != sizeof(_T) || B_size != sizeof(_T)) return INT_NULL_VALUE;\
-    if (*reinterpret_cast<const _T *>(A_value) < *reinterpret_cast<const _T *>(B_value)) return -1;\
-    if (*reinterpret_cast<const _T *>(A_value) > *reinterpret_cast<const _T *>(B_value)) return 1;\
-    return 0;
+    RETURN_COMPARE(s_Load<_T>(A_value),s_Load<_T>(B_value));
 
+    if (s_Decimals(A_type) >= 0 && s_Decimals(B_type) >= 0) // numbers
+    {
+        if (A_size != (XBT_IS_8(A_type) ? 8 : 4) || B_size != (XBT_IS_8(B_type) ? 8 : 4)) return INT_NULL_VALUE;
+        RETURN_COMPARE(s_ScaledInteger(A_type,A_value),s_ScaledInteger(B_type,B_value));
+    }
+    if ((A_type == XBT_FLOAT || A_type == XBT_DOUBLE) && (B_type == XBT_FLOAT || B_type == XBT_DOUBLE))
+    {
+        if (A_size != (XBT_IS_8(A_type) ? 8 : 4) || B_size != (XBT_IS_8(B_type) ? 8 : 4)) return INT_NULL_VALUE;
+        double A = A_type == XBT_FLOAT ? s_Load<float>(A_value) : s_Load<double>(A_value);
+        double B = B_type == XBT_FLOAT ? s_Load<float>(B_value) : s_Load<double>(B_value);
+        RETURN_COMPARE(A,B);
+    }
+    if ((A_type == XBT_STRING || A_type == XBT_BLOB_STRING) && (B_type == XBT_STRING || B_type == XBT_BLOB_STRING))
+    {
+        int cmp = strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
+        RETURN_COMPARE(cmp,0);
+    }
     if (A_type == B_type) // the same type
     {
         switch (A_type)
         {
-            case XBT_INT32:     
-            case XBT_INT32_DECI:
-            case XBT_INT32_CENTI:     
-            case XBT_INT32_MILI:     
-            case XBT_INT32_MICRO:     
-            case XBT_INT32_NANO:     
-                                RETURN_COMPARE_OF_TYPE(int32_t);
-
             case XBT_UNIX_DATE: RETURN_COMPARE_OF_TYPE(int32_t);
-            case XBT_UINT32:    RETURN_COMPARE_OF_TYPE(uint32_t);
             case XBT_UNIX_TIME: RETURN_COMPARE_OF_TYPE(uint32_t);
             case XBT_UNIX_TIME64_MSEC: RETURN_COMPARE_OF_TYPE(int64_t); 
-            case XBT_INT64:     RETURN_COMPARE_OF_TYPE(int64_t);
-            case XBT_UINT64:    RETURN_COMPARE_OF_TYPE(uint64_t);
-            case XBT_FLOAT:     RETURN_COMPARE_OF_TYPE(float);
-            case XBT_DOUBLE:    RETURN_COMPARE_OF_TYPE(double);
+            case XBT_IPv4:      RETURN_COMPARE_OF_TYPE(uint32_t);
 
-            case XBT_STRING:
-                                return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
-            case XBT_BLOB_STRING:
-                                return strcmp(reinterpret_cast<const char *>(A_value),reinterpret_cast<const char *>(B_value));
+            case XBT_BLOB:
             case XBT_HEX:
             case XBT_GUID:
             case XBT_SHA1:
-            case XBT_IPv4:
             case XBT_IPv6:
-                                if (A_size == B_size) // the same size
-                                    return memcmp(A_value,B_value,A_size);
+                {
+                    if (A_size < 0 || B_size < 0) return INT_NULL_VALUE;
+                    int cmp = memcmp(A_value,B_value,MIN(A_size,B_size));
+                    if (cmp == 0) 
+                        cmp = A_size - B_size;
+                    RETURN_COMPARE(cmp,0);
+                }
             default:
                                 return INT_NULL_VALUE;
         }
     }
-    if (A_size == B_size) // the same size
-        return memcmp(A_value,B_value,A_size);
     // TODO: some conversions could be done here, but it is too much of code - matrix of types and their conversions
     return INT_NULL_VALUE; // uncomparable
 #undef RETURN_COMPARE_OF_TYPE
+#undef RETURN_COMPARE
 }
 
 int XBT_GetBLOB_STRING_Size(int length)
-- 
2.43.0


From 7dc062eaf3c3ee2acd453bfd15dc3788cab15008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 32/65] fix: texts with reserved space were different from
 equal texts

---
 src/bin_xml_types.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 05dbd32..86d8f7d 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1136,6 +1136,10 @@ void XBT_ToXMLStream(XML_Binary_Type type,const char *data,std::ostream &os)
 
 bool XBT_Equal(XML_Binary_Data_Ref A,XML_Binary_Data_Ref B)
 {
+    if ((A.type == XBT_STRING || A.type == XBT_BLOB_STRING) && (B.type == XBT_STRING || B.type == XBT_BLOB_STRING) && A.data != nullptr && B.data != nullptr)
+    // text without the space reserved behind it
+        return strcmp(A.data + (A.type == XBT_BLOB_STRING ? sizeof(int32_t) : 0),B.data + (B.type == XBT_BLOB_STRING ? sizeof(int32_t) : 0)) == 0;
+
     if (A.type != B.type)
     {
         if (A.type == XBT_STRING)
-- 
2.43.0


From 91c0bf00c1a5ca0e93398857c92c8d780a9aa462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 33/65] fix: joined type of integers and floating point numbers
 must be able to keep the integers

---
 src/bin_xml_types.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 86d8f7d..4df6cd0 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -240,12 +240,10 @@ XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B)
     if ((B == XBT_INT32 || B == XBT_INT64 || B == XBT_FLOAT || B == XBT_DOUBLE) &&
         (A == XBT_INT32 || A == XBT_INT64 || A == XBT_FLOAT || A == XBT_DOUBLE))
     {
-        unsigned det_mask = ((B == XBT_FLOAT || B == XBT_DOUBLE) ? 1 : 0) |   // je to floating point?
-                            ((B == XBT_INT64 || B == XBT_DOUBLE) ? 2 : 0);    // je to velký typ?
-        unsigned exp_mask = ((A == XBT_FLOAT || A == XBT_DOUBLE) ? 1 : 0) |   // je to floating point?
-                            ((A == XBT_INT64 || A == XBT_DOUBLE) ? 2 : 0);    // je to velký typ?
-        const XML_Binary_Type number_types[] = {XBT_INT32,XBT_FLOAT,XBT_INT64,XBT_DOUBLE};
-        return number_types[det_mask | exp_mask];
+        bool any_float = A == XBT_FLOAT || A == XBT_DOUBLE || B == XBT_FLOAT || B == XBT_DOUBLE;
+        if (!any_float) return XBT_INT64; // INT32 + INT64
+        if (A == XBT_INT64 || B == XBT_INT64) return XBT_VARIANT; // no floating point type can keep all 64 bit numbers
+        return XBT_DOUBLE; // FLOAT cannot keep all 32 bit numbers
     }
     //std::cout << ANSI_MAGENTA_DARK "Join types " << XML_BINARY_TYPE_NAMES[A] << " + " << XML_BINARY_TYPE_NAMES[B] << " --> VARIANT" ANSI_RESET_LF;
     return XBT_VARIANT;
-- 
2.43.0


From a39ab92fc4fefa6b2caa674973062bc7a868d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 34/65] fix: base64 text must be terminated when it fills its
 buffer

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3ec5c6c..6c93f70 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1274,7 +1274,7 @@ char *base64_encode(const unsigned char *src,int src_size,char *dst,int dst_size
     }
     for(int c = (dst-dst_base) & 3;c > 0 && dst_size > 0 && c < 4;c++,dst_size--)
             *(dst++) = '=';
-    if (dst_size > 1)
+    if (dst_size > 0)
         *dst = 0;
     return dst_base;
 }
-- 
2.43.0


From 1f3816178e470698881e89af0428a8768cb76676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 35/65] fix: type of a name must not depend on the order of its
 values

---
 src/bin_xml_types.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 4df6cd0..b544e9a 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -252,7 +252,6 @@ XML_Binary_Type XBT_JoinTypes(XML_Binary_Type A,XML_Binary_Type B)
 
 XML_Binary_Type XBT_Detect2(const char *value,XML_Binary_Type expected)
 {
-    if (expected == XBT_VARIANT) return expected; // non compatible types
     XML_Binary_Type detected = XBT_Detect(value);
     return XBT_JoinTypes(detected,expected);
 }
-- 
2.43.0


From 81c3e75fc118d2ddd4f99bf41fc6ac9d7aaa2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 36/65] fix: text of an element behind a comment, an element or
 in CDATA was lost

---
 src/bin_xml_plugin.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 3db0ee9..42c6f52 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -43,7 +43,7 @@ bool Bin_xml_plugin::Initialize()
 {
     if (!Bin_src_plugin::Initialize()) return false;
 // loading xml
-    doc = xmlReadFile(filename, NULL, 0);
+    doc = xmlReadFile(filename, NULL, XML_PARSE_NOCDATA); // CDATA sections are text
     if (doc == nullptr)
     {
         std::cerr << "error: could not parse file " << filename << "\n";
@@ -74,14 +74,16 @@ const char *Bin_xml_plugin::getNodeName(void *element)
 const char *Bin_xml_plugin::getNodeValue(void *element)
 {
     xmlNode *X = reinterpret_cast<xmlNode *>(element);
-    if (X->children == nullptr) return nullptr;
-    if (X->children->type != XML_TEXT_NODE) return nullptr;
-    const char *value = reinterpret_cast<const char *>(X->children->content);
-    if (value == nullptr) return nullptr;
+    for(xmlNode *T = X->children;T != nullptr;T = T->next) // the first nonspace text, which can be behind elements or comments
+    {
+        if (T->type != XML_TEXT_NODE) continue;
+        const char *value = reinterpret_cast<const char *>(T->content);
+        if (value == nullptr) continue;
 //  if (X->childcount > 0) // is there nonspace value?
-    while(*value != '\0' && isspace(*value)) value++;
-    if (*value == '\0') return nullptr;
-    return value;   
+        while(*value != '\0' && isspace(*value)) value++;
+        if (*value != '\0') return value;   
+    }
+    return nullptr;
 }
 //-------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From ee625009cca048d5a5054e11abfbf367139161ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 37/65] fix: empty attribute crashed the conversion of XML

---
 src/bin_xml_plugin.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin_xml_plugin.cpp b/src/bin_xml_plugin.cpp
index 42c6f52..993415c 100644
--- a/src/bin_xml_plugin.cpp
+++ b/src/bin_xml_plugin.cpp
@@ -128,10 +128,10 @@ void Bin_xml_plugin::ForAllParams(OnParam_t on_param,void *element,void *userdat
 
     for(xmlAttr *A = X->properties;A != nullptr;A = A->next)
     {
-        assert(A->children->type == XML_TEXT_NODE);
-        const char *value = reinterpret_cast<const char*>(A->children->content);
+        xmlChar *value = xmlNodeListGetString(doc,A->children,1); // nullptr for empty attribute
     
-        on_param(reinterpret_cast<const char*>(A->name),value,element,userdata);
+        on_param(reinterpret_cast<const char*>(A->name),value != nullptr ? reinterpret_cast<const char*>(value) : "",element,userdata);
+        if (value != nullptr) xmlFree(value);
     }
 }
 
-- 
2.43.0


From 3f11afa556360f2f5f95466b7b5293ce753a6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 38/65] fix: printed XML did not escape markup and added space
 to texts, it could not be read back

---
 src/bin_xml.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..af0a5d6 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -521,6 +521,23 @@ XML_Binary_Data_Ref XML_Item::getData()
     return R;
 }
 
+static void WriteEscaped(std::ostream& os,const char *text,bool attribute)
+// text must be readable by XML parser with the same result
+{
+    for(const char *c = text;*c != '\0';c++)
+        switch(*c)
+        {
+            case '<': os << "&lt;"; break;
+            case '>': os << "&gt;"; break;
+            case '&': os << "&amp;"; break;
+            case '\r': os << "&#13;"; break;
+            case '\"': os << (attribute ? "&quot;" : "\""); break;
+            case '\n': os << (attribute ? "&#10;" : "\n"); break;
+            case '\t': os << (attribute ? "&#9;" : "\t"); break;
+            default: os << *c; break;
+        }
+}
+
 void XML_Item::write(std::ostream& os,XB_reader &R,int deep) 
 {
     if (THIS_IS_NULL) return;
@@ -542,8 +559,8 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         for(int offset = 0;;)
         {
             int len = param->getStringChunk(this,offset,buffer,sizeof(buffer));
-            if (len == 0) break;// TODO: escape param_value!
-            os << buffer;
+            if (len == 0) break;
+            WriteEscaped(os,buffer,true);
         }
 /*        LOG("\tparam[%d]:name=%s (%d) type=%s (%d) data=%d absolute=%08x",p,
             R.getParamName(param->name),param->name,
@@ -553,6 +570,7 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         os << "\"";
     }
     char buffer[4096+1];
+    bool has_text = false;
     if (childcount > 0)
     {
         os << ">\n";
@@ -577,11 +595,15 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
         {
             int len = getStringChunk(offset,buffer,sizeof(buffer));
             if (len == 0) break;
-        // TODO: escape param_value!
-            os << buffer;
+            WriteEscaped(os,buffer,false);
+            has_text = true;
+        }
+        if (!has_text) // spaces behind text would be a part of it
+        {
+            os << "\n";
+            TAB;
         }
-        os << "\n";    // TODO: escape value!
-        TAB;os << "</" << R.getNodeName(name) << ">\n";
+        os << "</" << R.getNodeName(name) << ">\n";
     }
     else
     {
@@ -590,9 +612,10 @@ void XML_Item::write(std::ostream& os,XB_reader &R,int deep)
                 os << "/>\n";
         else
         {
-                os << ">" << buffer;
+                os << ">";
+                WriteEscaped(os,buffer,false);
                 while (getStringChunk(offset,buffer,sizeof(buffer)) > 0)
-                    os << buffer;
+                    WriteEscaped(os,buffer,false);
                 os << "</" << R.getNodeName(name) << ">\n";
         }
     }
-- 
2.43.0


From 98238845c3bc5393d8dc6c2e118985d645e13fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 39/65] fix: dense documents overflowed the buffer of the
 conversion

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 33 +++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 4b24635..3797a1a 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -89,6 +89,7 @@ protected:
     int32_t     dst_file_size;
 
     char        *data;
+    int64_t     data_size_needed;   // upper limit computed in 1st pass
     int32_t     data_size_allocated;
 
 // 1st pass to enumerate paramcount
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 429ccaf..f6fd9fc 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -375,6 +375,7 @@ bool Bin_xml_creator::Make_xb()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->data_size_needed = 1024 + strlen(src->getFilename());
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(1184,root != nullptr);
@@ -394,13 +395,17 @@ bool Bin_xml_creator::Make_xb()
 
     // 3. allocate and fill--------------------------
     src->updateFileSize();
-    this->data_size_allocated = 1024 + src->getFileSize()*4;
-    this->data = reinterpret_cast<char *>(malloc(data_size_allocated)); // some reserve
+    for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
+        for(int i = 0;i < symbol_count[t];i++)
+            this->data_size_needed += strlen(symbol_table[t][i]) + 1 + sizeof(relative_ptr_t) + sizeof(XML_Binary_Type_Stored);
+    ASSERT_NO_RET_FALSE(2144,this->data_size_needed <= 0x7fffffff); // limit of relative_ptr_t
+    this->data_size_allocated = this->data_size_needed;
+    this->data = reinterpret_cast<char *>(malloc(data_size_allocated));
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
     if (this->data == nullptr)
     {
-        std::cerr << "error: " << strerror(errno) << " while malloc(" << src->getFileSize()*2 << ")\n";
+        std::cerr << "error: " << strerror(errno) << " while malloc(" << data_size_allocated << ")\n";
         return false;
     }
     this->dst_file_size = FillData();
@@ -536,6 +541,19 @@ void Bin_xml_creator::FirstPassEvent(void *element,void *userdata,int deep)
     assert(element != nullptr);
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_node_count++;
+
+    XML_Binary_Type type = XBT_UNKNOWN;
+    int size = 0;
+    const char *value = _this->src->getNodeBinValue(element,type,size);
+    if (type == XBT_UNKNOWN)
+    {
+        value = _this->src->getNodeValue(element);
+        size = (value != nullptr ? strlen(value) : 0);
+    }
+    else if (value != nullptr && XBT_IS_VARSIZE(type))
+        size = *reinterpret_cast<const int32_t*>(value);
+    _this->data_size_needed += sizeof(XML_Item) + sizeof(relative_ptr_t)/* link in parent */ + size + 48; // 48 = size of fixed types, envelopes and alignments
+
     if (!_this->src->ForAllBinParams(FirstPassBinParamEvent,element,userdata)) // this is faster!
         _this->src->ForAllParams(FirstPassParamEvent,element,userdata);
     
@@ -545,12 +563,20 @@ void Bin_xml_creator::FirstPassBinParamEvent(const char *param_name,int param_id
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+
+    int size = 0;
+    if (param_value != nullptr && type == XBT_STRING)
+        size = strlen(param_value);
+    else if (param_value != nullptr && XBT_IS_VARSIZE(type))
+        size = *reinterpret_cast<const int32_t*>(param_value);
+    _this->data_size_needed += sizeof(XML_Param_Description) + size + 48;
 }
 
 void Bin_xml_creator::FirstPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
 {
     Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
     _this->total_param_count++;
+    _this->data_size_needed += sizeof(XML_Param_Description) + (param_value != nullptr ? strlen(param_value) : 0) + 48;
 }
 
 void Bin_xml_creator::SecondPassEvent(void *element,void *userdata,int deep)
@@ -596,6 +622,7 @@ bool Bin_xml_creator::Make_xbw()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->data_size_needed = 1024 + strlen(src->getFilename());
 
     void *root = src->getRoot();
     ASSERT_NO_RET_FALSE(2052,root != nullptr);
-- 
2.43.0


From bddeb0542944b7670a7f016be39dded15b5b5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 40/65] fix: packed elements with 8 byte values were moved to
 wrong alignment or were not shared

---
 src/bin_xml_creator.cpp | 6 ++++--
 src/bin_xml_packer.cpp  | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index f6fd9fc..94ac73f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -400,12 +400,12 @@ bool Bin_xml_creator::Make_xb()
             this->data_size_needed += strlen(symbol_table[t][i]) + 1 + sizeof(relative_ptr_t) + sizeof(XML_Binary_Type_Stored);
     ASSERT_NO_RET_FALSE(2144,this->data_size_needed <= 0x7fffffff); // limit of relative_ptr_t
     this->data_size_allocated = this->data_size_needed;
-    this->data = reinterpret_cast<char *>(malloc(data_size_allocated));
+    this->data = reinterpret_cast<char *>(calloc(1,data_size_allocated)); // bytes in gaps must be equal in equal elements
 
     DBG(std::cout << "DBG:Buffer: " << (void *)this->data << "\n");
     if (this->data == nullptr)
     {
-        std::cerr << "error: " << strerror(errno) << " while malloc(" << data_size_allocated << ")\n";
+        std::cerr << "error: " << strerror(errno) << " while calloc(" << data_size_allocated << ")\n";
         return false;
     }
     this->dst_file_size = FillData();
@@ -831,6 +831,7 @@ const char *Bin_xml_creator::WritePayloadContainer(char **_wp,tag_name_id_t tag_
 // data
     *((*_wp)++) = XBT_NULL; // no data
 
+    AA8(*_wp);
     children[0] = WriteNode(_wp,root) - _x;
     assert((children[0] & 3) == 0);
 
@@ -1018,6 +1019,7 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
 void Bin_xml_creator::XStoreChildrenEvent(void *element,void *userdata)
 {
     XStoreParamsData *xstore_data = reinterpret_cast<XStoreParamsData*>(userdata);
+    AA8(*xstore_data->_wp); // equal elements must be stored equally, alignment of 8 byte values included
     *(xstore_data->children++) = xstore_data->creator->WriteNode(xstore_data->_wp,element) - xstore_data->_x;
 }
 
diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index cc1a367..a974004 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -88,7 +88,7 @@ int32_t Bin_xml_packer::Pack()
 
     DBG(std::cout << "\n===========================================================\n");
 // now i should recursively copy/repair all
-    data2 = new char [dst_file_size]; // reinterpret_cast<char *>(alloca(dst_file_size));
+    data2 = new char [dst_file_size](); // reinterpret_cast<char *>(alloca(dst_file_size));
     char *_wp = data2;
 
     XML_Item *X_dst = reinterpret_cast<XML_Item*>(PackNode(&_wp,this->data));
@@ -159,7 +159,7 @@ void Bin_xml_packer::MarkReferences()
     DBG(std::cout << "==================" << computed_hashes << " OK\n");
 
 // sort all
-    SN.index = reinterpret_cast<int*>(alloca(sizeof(int)*total_node_count));
+    SN.index = new int[total_node_count]; // reinterpret_cast<int*>(alloca(sizeof(int)*total_node_count));
     for(int i = 0;i < total_node_count;i++) SN.index[i] = i;
     mergesort_r2
        (reinterpret_cast<void*>(SN.index),
@@ -240,6 +240,7 @@ void Bin_xml_packer::MarkReferences()
     }
     delete [] SN.node_links;
     delete [] SN.node_hashes;
+    delete [] SN.index;
 }
 
 char *Bin_xml_packer::PackNode(char **_wp,char *_X)
@@ -252,6 +253,8 @@ char *Bin_xml_packer::PackNode(char **_wp,char *_X)
 // _x is pointer to XML_Item in destionation data2 space
 {
     AA(*_wp);
+    if (reinterpret_cast<XML_Item*>(_X)->name != XTNR_REFERENCE && (((*_wp-data2) ^ (_X-data)) & 4) != 0)
+        *_wp += 4; // 8 byte values must stay aligned
     char *_x = *_wp;
     
     XML_Item *X_src = reinterpret_cast<XML_Item*>(_X);
-- 
2.43.0


From 1fba5f7d583a307635f5a4b659e53c803fbb64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 41/65] fix: type of a name must be able to keep all values of
 the document

---
 include/binary_xml/bin_xml_creator.h |  6 +++++
 src/bin_xml_creator.cpp              | 35 ++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 3797a1a..6aeacff 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -122,6 +122,12 @@ protected:
         static void SecondPassEvent(void *element,void *userdata,int deep);
         static void SecondPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
         static void SecondPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
+
+// pass to check that types of symbols can keep all values
+    void FitType(const char *symbol,const int t,const char *value);
+    static void FitPassEvent(void *element,void *userdata,int deep);
+    static void FitPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
+    static void FitPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
         
         int32_t FillData();
             const char *WriteChildSymbols(char **_wp,tag_name_id_t tag_name,int symbol_table);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 94ac73f..a93ff13 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -482,6 +482,7 @@ bool Bin_xml_creator::MakeSymbolTable()
     }
 
     src->ForAllChildrenRecursively(SecondPassEvent,src->getRoot(),(void*)this,0);
+    src->ForAllChildrenRecursively(FitPassEvent,src->getRoot(),(void*)this,0);
 
     for(int t = 0;t < SYMBOL_TABLES_COUNT;t++)
     {
@@ -601,6 +602,40 @@ void Bin_xml_creator::SecondPassParamEvent(const char *param_name,const char *pa
     _this->FindOrAdd(param_name,SYMBOL_TABLE_PARAMS,param_value);
 }
 
+void Bin_xml_creator::FitType(const char *symbol,const int t,const char *value)
+// joined type has place for decimals of all values, but the numbers can be too big for it
+{
+    if (symbol == nullptr || value == nullptr || *value == '\0') return;
+    int id = Find(symbol,t);
+    if (id < 0) return;
+    XML_Binary_Type type = static_cast<XML_Binary_Type>(symbol_table_types[t][id]);
+    if (!XBT_IS_4(type) && !XBT_IS_8(type)) return;
+
+    int64_t place = 0;
+    char *wp = reinterpret_cast<char*>(&place);
+    if (!XBT_FromString(value,type,&wp,wp+sizeof(place)))
+        symbol_table_types[t][id] = XBT_VARIANT;
+}
+
+void Bin_xml_creator::FitPassEvent(void *element,void *userdata,int deep)
+{
+    Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
+    _this->FitType(_this->src->getNodeName(element),SYMBOL_TABLE_NODES,_this->src->getNodeValue(element));
+    if (!_this->src->ForAllBinParams(FitPassBinParamEvent,element,userdata))
+        _this->src->ForAllParams(FitPassParamEvent,element,userdata);
+}
+
+void Bin_xml_creator::FitPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata)
+{
+    // types are given by source
+}
+
+void Bin_xml_creator::FitPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
+{
+    Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
+    _this->FitType(param_name,SYMBOL_TABLE_PARAMS,param_value);
+}
+
 //-------------------------------------------------------------------------------------------------
 
 struct MakingXBW_1node
-- 
2.43.0


From 2756e2079a3d00a424cfb3f2d127db54bb218e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 42/65] fix: document with too many names must not be converted
 without them

---
 include/binary_xml/bin_xml_creator.h |  1 +
 src/bin_xml_creator.cpp              | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 6aeacff..22afa0b 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -99,6 +99,7 @@ protected:
     const char              **symbol_table[SYMBOL_TABLES_COUNT];
     XML_Binary_Type_Stored  *symbol_table_types[SYMBOL_TABLES_COUNT];
     int                     symbol_count[SYMBOL_TABLES_COUNT];
+    bool                    symbol_limit_reached;
 // incremental addition
     int     dst_file;
 public:
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index a93ff13..a920b46 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -375,6 +375,7 @@ bool Bin_xml_creator::Make_xb()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->symbol_limit_reached = false;
     this->data_size_needed = 1024 + strlen(src->getFilename());
 
     void *root = src->getRoot();
@@ -382,7 +383,8 @@ bool Bin_xml_creator::Make_xb()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
-    CopySymbolTable() || MakeSymbolTable();
+    ASSERT_NO_RET_FALSE(2145,CopySymbolTable() || MakeSymbolTable());
+    ASSERT_NO_RET_FALSE(2146,!symbol_limit_reached); // some elements would have no name
     // 2. show stats---------------------------------
 
     DBG(std::cout << "total elements: " << total_node_count << "\n");
@@ -657,6 +659,7 @@ bool Bin_xml_creator::Make_xbw()
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
     this->total_param_count = 0;
+    this->symbol_limit_reached = false;
     this->data_size_needed = 1024 + strlen(src->getFilename());
 
     void *root = src->getRoot();
@@ -664,7 +667,8 @@ bool Bin_xml_creator::Make_xbw()
     // total_node_count, total_param_count
     src->ForAllChildrenRecursively(FirstPassEvent,root,(void*)this,0);
 
-    CopySymbolTable() || MakeSymbolTable();
+    ASSERT_NO_RET_FALSE(2147,CopySymbolTable() || MakeSymbolTable());
+    ASSERT_NO_RET_FALSE(2148,!symbol_limit_reached); // some elements would have no name
     // 2. show stats---------------------------------
     // I have completed 2x2 arrays
     //const char              **symbol_table[SYMBOL_TABLES_COUNT];
@@ -1236,6 +1240,7 @@ int Bin_xml_creator::FindOrAddTyped(const char *symbol,const int t,XML_Binary_Ty
     if (symbol_count[t] >= MAX_SYMBOL_COUNT)
     {
         fprintf(stderr,"Cannot add symbol '%s' to symbol table of %s - limit %d reached",symbol,(t == SYMBOL_TABLE_NODES ? "tags" : "params"),MAX_SYMBOL_COUNT);
+        symbol_limit_reached = true;
         return -1; // failed
     }
 // not found --> add
@@ -1289,6 +1294,7 @@ int Bin_xml_creator::FindOrAdd(const char *symbol,const int t,const char *value)
     if (symbol_count[t] >= MAX_SYMBOL_COUNT)
     {
         fprintf(stderr,"Cannot add symbol '%s' to symbol table of %s - limit %d reached",symbol,(t == SYMBOL_TABLE_NODES ? "tags" : "params"),MAX_SYMBOL_COUNT);
+        symbol_limit_reached = true;
         return -1; // failed
     }
 // not found --> add
-- 
2.43.0


From 2ec805510217c1ba78f6df50bcbd3ece9672d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 43/65] fix: integer of a text element was converted only once

---
 src/bin_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index af0a5d6..452dcbe 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -440,7 +440,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result; // non reetrant!!!
+        p_result = atoi(p);
         return &p_result;
     }
     return nullptr;
-- 
2.43.0


From da819b02e990c852db6beea56d31dc9406612c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 44/65] fix: 64 bit attribute was read from its reference

---
 src/bin_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 452dcbe..1f5c511 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -135,7 +135,7 @@ const int64_t *XML_Param_Description::getInt64Ptr(const XML_Item *X) const
 {
     if (THIS_IS_NULL) return nullptr;
     if (X == nullptr) return nullptr;
-    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(&data);
+    if (type == XBT_INT64) return reinterpret_cast<const int64_t *>(reinterpret_cast<const char *>(X)+data);
     if (type == XBT_STRING) 
     {
         const char *p = reinterpret_cast<const char *>(X)+data;
-- 
2.43.0


From 3dee164b3de3be2a7df5fafd4745ccd05965dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 45/65] fix: content of data of binary document was not
 initialized

---
 src/bin_xml.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index 1f5c511..df550e6 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -187,8 +187,8 @@ XML_Binary_Data_Ref XML_Param_Description::getData(XML_Item *X)
 {
     XML_Binary_Data_Ref D;
     D.type = XBT_UNKNOWN;
-    D.data = nullptr;
-    D.size = 0; // D as Data
+    D.data = D.content = nullptr;
+    D.size = D.content_size = 0; // D as Data
 
     if (THIS_IS_NULL || X == nullptr) return D;
     D.type = static_cast<XML_Binary_Type>(type);
@@ -204,6 +204,8 @@ XML_Binary_Data_Ref XML_Param_Description::getData(XML_Item *X)
         else if (XBT_IS_VARSIZE(type)) D.size = 4 + *reinterpret_cast<int32_t*>(D.data);
         else D.size = XBT_FIXEDSIZE(type);
     }
+    D.content = D.data + (XBT_IS_VARSIZE(type) ? 4 : 0);
+    D.content_size = D.size - (XBT_IS_VARSIZE(type) ? 4 : 0);
     return D;
 }
     
@@ -478,8 +480,8 @@ XML_Binary_Data_Ref XML_Item::getData()
 {
     XML_Binary_Data_Ref R;
     R.type = XBT_UNKNOWN;
-    R.data = nullptr;
-    R.size = 0;
+    R.data = R.content = nullptr;
+    R.size = R.content_size = 0;
 
     if (THIS_IS_NULL) return R;
     CHECK_AA_THIS;
@@ -519,6 +521,8 @@ XML_Binary_Data_Ref XML_Item::getData()
         R.size = XBT_FIXEDSIZE(R.type);
     }
     assert(R.size >= 0);
+    R.content = R.data + (XBT_IS_VARSIZE(R.type) ? 4 : 0);
+    R.content_size = R.size - (XBT_IS_VARSIZE(R.type) ? 4 : 0);
     return R;
 }
 
-- 
2.43.0


From 1819bda7b3830498680dd4f659e0bb06ea5e41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 46/65] fix: hexadecimal attribute overwrote the data behind it

---
 src/bin_xml_creator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index a920b46..f2182ce 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -1037,9 +1037,8 @@ void Bin_xml_creator::XStoreParamsEvent(const char *param_name,const char *param
         type = static_cast<XML_Binary_Type>(xstore_data->creator->symbol_table_types[SYMBOL_TABLE_PARAMS][name_id]);
 
     type = XBT_Detect2(param_value,type);
-    int size = XBT_Size2(type,0);
     char *in_place_wp = reinterpret_cast<char*>(&xstore_data->params->data);
-    if (size == 4 && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
+    if (XBT_IS_4(type) && XBT_FromString(param_value,type,&in_place_wp,xstore_data->creator->data+xstore_data->creator->data_size_allocated))
     {
         xstore_data->params->type = type;
     }
-- 
2.43.0


From e6549a3ef35e3e1310ebe8506c571854625b3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 47/65] fix: type of a JSON name was detected from the name,
 not from its values

---
 include/binary_xml/bin_json_plugin.h |  1 +
 src/bin_json_plugin.cpp              | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/binary_xml/bin_json_plugin.h b/include/binary_xml/bin_json_plugin.h
index 746ca9f..367d8db 100644
--- a/include/binary_xml/bin_json_plugin.h
+++ b/include/binary_xml/bin_json_plugin.h
@@ -14,6 +14,7 @@ protected:
 	int		num_tokens1;
 	int		max_str_len;
 	char		*last_str;
+	char		*last_value;
 	jsmntok_t 	*tokens;
 public:
 	Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_creator);
diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 8bc538b..54eb86e 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -62,6 +62,7 @@ Bin_json_plugin::Bin_json_plugin(const char *filename,Bin_xml_creator *bin_xml_c
 	this->tokens = nullptr;
 	this->max_str_len = 0;
 	this->last_str = nullptr;
+	this->last_value = nullptr;
 }
 
 Bin_json_plugin::~Bin_json_plugin()
@@ -76,6 +77,11 @@ Bin_json_plugin::~Bin_json_plugin()
 		delete [] last_str;
 		last_str = nullptr;
 	}
+	if (last_value != nullptr)
+	{
+		delete [] last_value;
+		last_value = nullptr;
+	}
 
 
 	if (source != MAP_FAILED && munmap(const_cast<char *>(source),file_size) == -1)
@@ -162,6 +168,8 @@ bool Bin_json_plugin::Initialize()
 
 	last_str = new char[max_str_len+1+4];	// possible adding "Item"
 	last_str[max_str_len] = '\0';
+	last_value = new char[max_str_len+1];	// name and value are used together
+	last_value[max_str_len] = '\0';
 
 	return true;
 }
@@ -251,9 +259,9 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	}
 // ok, P ukazuje na hodnotu nebo podstrom
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
-	return last_str;
+	strncpy(last_value,source + X->start,X->end - X->start);
+	last_value[X->end - X->start] = 0;
+	return last_value;
 }
 
 void Bin_json_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *userdata)
-- 
2.43.0


From cf886c4e3f7246fd8d25973cb1ffbaa977cebe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 48/65] fix: JSON with invalid structure crashed the conversion

---
 src/bin_json_plugin.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index 54eb86e..e542800 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,6 +13,27 @@
 namespace pklib_xml {
 
 
+static bool jsmn_check_structure(const jsmntok_t *tokens,int num_tokens)
+// tokenizer accepts object members without value or with more values and more root elements
+{
+	for(int i = 0;i < num_tokens;i++)
+	{
+		int parent = tokens[i].parent;
+		if (parent < 0)
+		{
+			if (i > 0) return false; // only one root
+		}
+		else if (tokens[parent].type == JSMN_OBJECT)
+		{
+			if (tokens[i].type == JSMN_OBJECT || tokens[i].type == JSMN_ARRAY) return false; // only text can be a name
+			if (tokens[i].size != 1) return false; // name must have exactly one value
+			continue;
+		}
+		if ((tokens[i].type == JSMN_STRING || tokens[i].type == JSMN_PRIMITIVE) && tokens[i].size != 0) return false; // value of a value
+	}
+	return num_tokens > 0;
+}
+
 static int jsmn_prepare_total_size(jsmntok_t *tokens,int idx)
 // will fill my extension of jmntok_t - total_size
 {
@@ -97,7 +118,7 @@ bool Bin_json_plugin::Initialize()
 
 	// 1. open file & mmap	
 	std::cout << "1 open & mmap ...\n";
-	int fd = open(filename,O_RDONLY);
+	fd = open(filename,O_RDONLY);
 	if (fd == -1)
 	{
 		ERRNO_SHOW(1003,"open",filename);
@@ -117,6 +138,7 @@ bool Bin_json_plugin::Initialize()
 	jsmn_init(&JP);
 	num_tokens0 = jsmn_parse(&JP,source,file_size,nullptr,0);
 	std::cout << " ... " << num_tokens0 << " tokens";
+	if (num_tokens0 <= 0) return false; // invalid or empty
 
 	tokens = new jsmntok_t[num_tokens0];
 	assert(tokens != nullptr);
@@ -148,6 +170,12 @@ bool Bin_json_plugin::Initialize()
         }
     }
 
+	if (!jsmn_check_structure(tokens,num_tokens0))
+	{
+		std::cerr << "Bin_json_plugin::Initialize() invalid structure of " << filename << "\n";
+		return false;
+	}
+
 	// 4. json filling total_size
 //	std::cout << "prepare total_size ... " << (void*)tokens << "\n" << std::flush;
 	int total_size = jsmn_prepare_total_size(tokens,0);
@@ -204,7 +232,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 			strncpy(last_str,source + P2->start,len);
 			
 			last_str[len] = 0;
-			if (last_str[len-1] == 's')
+			if (len > 0 && last_str[len-1] == 's')
 			{
 				last_str[len-1] = '\0';
 			}
-- 
2.43.0


From 31e541563f956999aec3e4877bbd9479bc6fa51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 49/65] fix: escape sequences of JSON strings were not
 translated

---
 src/bin_json_plugin.cpp | 87 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 80 insertions(+), 7 deletions(-)

diff --git a/src/bin_json_plugin.cpp b/src/bin_json_plugin.cpp
index e542800..f527ce7 100644
--- a/src/bin_json_plugin.cpp
+++ b/src/bin_json_plugin.cpp
@@ -13,6 +13,77 @@
 namespace pklib_xml {
 
 
+static int s_HexCode(const char *src,const char *end)
+// 4 hexadecimal digits of an \u escape, -1 when they are not there
+{
+	int code = 0;
+	if (end - src < 4) return -1;
+	for(int i = 0;i < 4;i++)
+	{
+		char c = src[i];
+		if (c >= '0' && c <= '9') code = (code << 4) + c - '0';
+		else if (c >= 'a' && c <= 'f') code = (code << 4) + c - 'a' + 10;
+		else if (c >= 'A' && c <= 'F') code = (code << 4) + c - 'A' + 10;
+		else return -1;
+	}
+	return code;
+}
+
+static int s_Unescape(char *dst,const char *src,const char *end)
+// result is never longer than the source; zero and lone surrogates cannot be stored in a text and stay as they are written
+{
+	char *d = dst;
+	while (src < end)
+	{
+		if (*src != '\\' || src+1 >= end) { *(d++) = *(src++);continue; }
+		switch(src[1])
+		{
+			case 'b': *(d++) = '\b';break;
+			case 'f': *(d++) = '\f';break;
+			case 'n': *(d++) = '\n';break;
+			case 'r': *(d++) = '\r';break;
+			case 't': *(d++) = '\t';break;
+			case 'u':
+				{
+					int code = s_HexCode(src+2,end);
+					int size = 6;
+					if (code >= 0xd800 && code < 0xdc00 && end - src >= 12 && src[6] == '\\' && src[7] == 'u')
+					{
+						int low = s_HexCode(src+8,end);
+						if (low >= 0xdc00 && low < 0xe000)
+						{
+							code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+							size = 12;
+						}
+					}
+					if (code <= 0 || (code >= 0xd800 && code < 0xe000)) { *(d++) = *(src++);continue; }
+					if (code < 0x80) *(d++) = code;
+					else
+					{
+						if (code < 0x800) *(d++) = 0xc0 | (code >> 6);
+						else
+						{
+							if (code < 0x10000) *(d++) = 0xe0 | (code >> 12);
+							else
+							{
+								*(d++) = 0xf0 | (code >> 18);
+								*(d++) = 0x80 | ((code >> 12) & 0x3f);
+							}
+							*(d++) = 0x80 | ((code >> 6) & 0x3f);
+						}
+						*(d++) = 0x80 | (code & 0x3f);
+					}
+					src += size;
+					continue;
+				}
+			default: *(d++) = src[1];break; // quotes, slash and backslash
+		}
+		src += 2;
+	}
+	*d = '\0';
+	return d - dst;
+}
+
 static bool jsmn_check_structure(const jsmntok_t *tokens,int num_tokens)
 // tokenizer accepts object members without value or with more values and more root elements
 {
@@ -228,10 +299,8 @@ const char *Bin_json_plugin::getNodeName(void *element)
 		{
 			assert(P2->start >= 0 && P2->start < file_size);
 			assert(P2->end > 0 && P2->end <= file_size);
-			int len = P2->end - P2->start;
-			strncpy(last_str,source + P2->start,len);
+			int len = s_Unescape(last_str,source + P2->start,source + P2->end);
 			
-			last_str[len] = 0;
 			if (len > 0 && last_str[len-1] == 's')
 			{
 				last_str[len-1] = '\0';
@@ -265,8 +334,7 @@ const char *Bin_json_plugin::getNodeName(void *element)
 	assert(X->start >= 0 && X->start < file_size);
 	assert(X->end > 0 && X->end <= file_size);
 	
-	strncpy(last_str,source + X->start,X->end - X->start);
-	last_str[X->end - X->start] = 0;
+	s_Unescape(last_str,source + X->start,source + X->end);
 	return last_str;
 }
 
@@ -287,8 +355,13 @@ const char *Bin_json_plugin::getNodeValue(void *element)
 	}
 // ok, P ukazuje na hodnotu nebo podstrom
 	if (X->type != JSMN_STRING && X->type != JSMN_PRIMITIVE) return nullptr; // name
-	strncpy(last_value,source + X->start,X->end - X->start);
-	last_value[X->end - X->start] = 0;
+	if (X->type == JSMN_STRING)
+		s_Unescape(last_value,source + X->start,source + X->end);
+	else
+	{
+		strncpy(last_value,source + X->start,X->end - X->start);
+		last_value[X->end - X->start] = 0;
+	}
 	return last_value;
 }
 
-- 
2.43.0


From e0703d96db1ada180349aff317c7f5bb64617b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 50/65] fix: a damaged binary document was not refused
 (XML_Item::Check, symbol tables, appended elements)

---
 src/bin_xml.cpp | 162 +++++++++++++++++++++++++++++-------------------
 1 file changed, 99 insertions(+), 63 deletions(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index df550e6..1885f33 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -22,89 +22,112 @@ namespace pklib_xml
 {
 
 
+static bool s_CheckData(XML_Binary_Type type,const char *p,const char *end)
+// value of given type must be whole in p..end
+{
+    if (p > end) return false;
+    switch(type)
+    {
+        case XBT_NULL:
+            return true;
+        case XBT_STRING:
+            return strnlen(p,end-p) < (size_t)(end-p);
+        case XBT_VARIANT:
+        case XBT_UNKNOWN:
+        case XBT_IPv6:
+            return false; // there are no readable values of this type
+        default:
+            break;
+    }
+    if (XBT_IS_4(type)) return end-p >= 4;
+    if (XBT_IS_VARSIZE(type))
+    {
+        if (end-p < (int)sizeof(int32_t)) return false;
+        int32_t size = *reinterpret_cast<const int32_t*>(p);
+        if (size < 0 || size > end-p-(int)sizeof(int32_t)) return false;
+        if (type == XBT_BLOB_STRING) return size > 0 && p[sizeof(int32_t)+size-1] == '\0';
+        return true;
+    }
+    int size = XBT_FIXEDSIZE(type);
+    return size >= 0 && end-p >= size;
+}
+
 bool XML_Item::Check(XB_reader *R,bool recursive) 
 // I want to check everything to be 100% sure, data are ok
 {
     if (THIS_IS_NULL) return false;  // NULL is not ok
     if (R == nullptr) return false;
-    if (this < R->doc) return false; // out of space
-    if (reinterpret_cast<const char *>(this)+sizeof(XML_Item) > reinterpret_cast<const char *>(R->doc)+R->size) return false;
-    if (reinterpret_cast<const char *>(this)+length > reinterpret_cast<const char *>(R->doc)+R->size) return false;
+
+    const char *begin = reinterpret_cast<const char*>(R->doc);
+    const char *end = begin + R->size;
+    const char *x = reinterpret_cast<const char*>(this);
+    if (x < begin || x > end) return false; // out of space
+    if (end-x < (int)sizeof(XML_Item)) return false;
     
-    const char *p = reinterpret_cast<const char*>(this);
-    const char *p0 = p;
-    AA(p);
-//    std::cout << "XML_Item::Check " << (void*)this << "\n";
-    if (p != p0)
+    const char *p0 = x;
+    AA(p0);
+    if (p0 != x)
     {
         std::cout << ANSI_RED_BRIGHT "XML_Item " << (void*)this << " is not aligned!" ANSI_RESET_LF;
         return false;
     }
+    if (length > end-x) return false;
+    end = x + length;
+    bool appended = x > begin && x - begin >= R->doc->length;
+    if (appended && name == XTNR_ET_TECERA) return false; // appended elements cannot contain themselves
     
 // name check
     if (name <= XTNR_LAST) return false;
     if (name >= R->tag_symbols.count) return false;
 // size check
-    if (sizeof(XML_Item)+paramcount*sizeof(XML_Param_Description)+childcount*sizeof(relative_ptr_t) > (unsigned)length) return false; // not safe to access params or children
+    if (paramcount < 0 || childcount < 0) return false;
+    int64_t header_size = sizeof(XML_Item)+paramcount*(int64_t)sizeof(XML_Param_Description)+childcount*(int64_t)sizeof(relative_ptr_t);
+    if (header_size + 1/* type of value */ > length) return false; // not safe to access params or children
 // params check
     for(int p = 0;p < paramcount;p++)
     {
         XML_Param_Description *PD = getParamByIndex(p);
         if (PD->name <= XPNR_LAST) return false; // too low
         if (PD->name >= R->param_symbols.count) return false; // too high
-        if (PD->type < XBT_NULL) return false;
         if (PD->type >= XBT_LAST) return false;
+        XML_Binary_Type type = static_cast<XML_Binary_Type>(PD->type);
     // inline parameters
-        if (PD->type == XBT_NULL) continue;
-        if (PD->type == XBT_INT32) continue;
-        if (PD->type == XBT_FLOAT) continue;
-        if (PD->type == XBT_UNIX_TIME) continue;
-        if (PD->type == XBT_IPv4) continue; 
+        if (type == XBT_NULL) continue;
+        if (XBT_IS_4(type)) continue;
     // check link
         if (PD->data < 0) return false; // reference out of node is not allowed here and yet
         if (PD->data >= length) return false; // pointer out of limit
-        
-
-        switch (PD->type)
-        {
-            case XBT_STRING:
-                {
-                    int max_len = this->length - PD->data;
-                    int len = strnlen(reinterpret_cast<const char *>(this)+PD->data,max_len);
-                    return len < max_len;
-                }
-            case XBT_INT64:
-                return PD->data+sizeof(int64_t) <= (unsigned)this->length;
-            case XBT_UINT64:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-//            case XBT_UNIX_TIME:
-//                return PD->data+sizeof(uint32_t) <= (unsigned)this->length;
-            case XBT_UNIX_TIME64_MSEC:
-                return PD->data+sizeof(uint64_t) <= (unsigned)this->length;
-            case XBT_DOUBLE:
-                return PD->data+sizeof(double) <= (unsigned)this->length;
-            case XBT_SHA1:
-                return PD->data+sizeof(hash192_t) <= (unsigned)this->length;
-            case XBT_GUID:
-                return PD->data+sizeof(GUID_t) <= (unsigned)this->length;
-            case XBT_IPv6:
-                return PD->data+sizeof(IPv6_t) <= (unsigned)this->length;
-            default:
-                std::cerr << "Error: Parameter type " << PD->type << " is not supported now!\n";
-                return false;
-        }
+        int align = XBT_Align(type);
+        if (align > 0 && (x+PD->data-begin) % align != 0) return false;
+        if (!s_CheckData(type,x+PD->data,end)) return false;
+    }
+// value check
+    {
+        const char *p = x + header_size;
+        uint8_t stored_type = static_cast<uint8_t>(*(p++));
+        if (stored_type >= XBT_LAST) return false;
+        XML_Binary_Type type = static_cast<XML_Binary_Type>(stored_type);
+        int align = XBT_Align(type);
+        if (align == 4)
+            AA(p);
+        else if (align == 8)
+            AA8(p);
+        if (!s_CheckData(type,p,end)) return false;
+    }
+// children check
+    for(int i = 0;i < childcount;i++)
+    {
+        int64_t offset = x - begin + (int64_t)getChildren()[i];
+        if (offset < 0 || offset + sizeof(XML_Item) > R->size || (offset & 3) != 0) return false;
+        XML_Item *X = getChildByIndex(i);
+        const char *y = reinterpret_cast<const char*>(X);
+        if (X->length > begin + R->size - y) return false;
+    // child is a part of this element or is shared and was complete before it, so there is no cycle
+        if (y + X->length > (y > x ? end : x)) return false;
+    // appended elements are independent of the document
+        if (appended && y - begin < R->doc->length) return false;
+        if (recursive && !X->Check(R,true)) return false;
     }
-// TODO: check value
-
-
-    if (recursive)
-        for(int i = 0;i < childcount;i++)
-        {
-            XML_Item *X = getChildByIndex(i);
-            if (X == nullptr) return false;
-            if (!X->Check(R,true)) return false;
-        }
-            
     return true;
 }
 
@@ -279,9 +302,9 @@ XML_Item *XML_Item::getNextChild(XB_reader &R,int &i) // this method can show ev
     int offset = -i;
     AA(offset);
     
-    if (offset + (int)sizeof(XML_Item) > (int)R.size) return nullptr; // end of data -> no more can fit
+    if (offset < 0 || offset + sizeof(XML_Item) > R.size) return nullptr; // end of data -> no more can fit
     XML_Item *X = reinterpret_cast<XML_Item*>(reinterpret_cast<char*>(R.doc) + offset);
-    if (offset + X->length > (int)R.size) return nullptr; // something is strange - no whole XML_Item is stored in file        
+    if (!X->Check(&R,true)) return nullptr; // something is strange - no whole XML_Item is stored in file        
     // must find the first extended record
     offset += X->length;
     AA(offset); // align!
@@ -653,6 +676,7 @@ const char *XML_Param_Description::getString(const XML_Item *X) const
 _XB_symbol_table::_XB_symbol_table()
 {
     count = 0;
+    type_count = 0;
 // these pointers refers to xb content directly
     item_container = nullptr;
     reference_array = nullptr;
@@ -673,13 +697,15 @@ bool _XB_symbol_table::Load(XML_Item *container)
 // or in <param_symbols ...> element
 {
     item_container = container;
+    type_count = 0;
     count = container->getParamByName(XPNR_COUNT)->getInt(container);
-    if (count == INT32_NULL) return false;
+    if (count < 0) return false; // INT32_NULL too
     if (count == 0) return true; // ok, no symbols
 
     type_count = container->getParamByName(XPNR_TYPE_COUNT)->getInt(container);
     if (type_count == INT32_NULL)
         type_count = 0;
+    if (type_count < 0) return false;
 
     
     int32_t size = -1; // size of whole data block - reference_array & strings
@@ -691,11 +717,13 @@ bool _XB_symbol_table::Load(XML_Item *container)
     }*/
 //    std::cout << "*** Reading symbol table of " << count << " elements with size " << size << " bytes.\n";
     if (reference_array == nullptr) return false;   // count != 0
+    if (count*(int64_t)sizeof(relative_ptr_t) + type_count*(int64_t)sizeof(XML_Binary_Type_Stored) > size) return false; // no place for strings and reference_arrays
     
     type_array = reinterpret_cast<const XML_Binary_Type_Stored*>(reference_array+count);
     const char *A0 = reinterpret_cast<const char*>(type_array+type_count);  // start of string area after last item in reference_array
     const char *A1 = reinterpret_cast<const char*>(reference_array)+size;   // end of string area as begin of binary data + it's size
-    if (A0 > A1) return false; // no place for strings and reference_arrays
+    for(int t = 0;t < type_count;t++)
+        if (type_array[t] >= XBT_LAST) return false;
     for(int s = 0;s < count;s++)
     {
         const char *value = reinterpret_cast<const char*>(container) + reference_array[s];
@@ -822,7 +850,11 @@ bool XB_reader::Initialize()
     }
 
     size = file_getsize(this->filename);
-    assert(size > sizeof(XML_Item));
+    if (size <= sizeof(XML_Item) || size > 0x7fffffff) // relative_ptr_t limit
+    {
+        std::cerr << "Error: " << this->filename << " is not xb file!\n";
+        return false;
+    }
 
     doc = reinterpret_cast<XML_Item*>(mmap(NULL,size,PROT_READ,MAP_SHARED,fd,0));
     if (doc == MAP_FAILED)
@@ -830,7 +862,11 @@ bool XB_reader::Initialize()
         ERRNO_SHOW(1025,"mmap",filename);
         return false;
     }
-    assert(doc->name == XTNR_META_ROOT);
+    if (doc->name != XTNR_META_ROOT)
+    {
+        std::cerr << "Error: " << this->filename << " is not xb file!\n";
+        return false;
+    }
 
     // check only root element
     if (!doc->Check(this,false)) return false;
@@ -851,7 +887,7 @@ bool XB_reader::Initialize()
 
     data = doc->getChildByName(XTNR_PAYLOAD)->getChildByIndex(0);
 
-    return true;
+    return data != nullptr;
 }
 
 bool XB_reader::Finalize()
-- 
2.43.0


From 0bdbb09089f7d22740465bd56408951974601d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 51/65] fix: names without type were lost in conversion of .xbw
 to .xb

---
 src/bin_write_plugin.cpp | 1 -
 src/bin_xml_creator.cpp  | 7 +++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index e845e4b..a9ce46b 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2952,7 +2952,6 @@ const char *BW_plugin::getSymbol(SymbolTableTypes table,int idx,XML_Binary_Type
             if (idx <= pool->params.max_id)
             {
                 type = pool->getAttrType(idx);
-                if (type == XBT_UNKNOWN) return nullptr;
                 return pool->getAttrName(idx);
             }
             else
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index f2182ce..5015b7f 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -340,8 +340,8 @@ Bin_xml_creator::~Bin_xml_creator()
         {
             free((void*)symbol_table[t][i]);
         }
-        delete [] symbol_table[t];
-        delete [] symbol_table_types[t];
+        free(symbol_table[t]);
+        free(symbol_table_types[t]);
         symbol_table[t] = nullptr;
         symbol_table_types[t] = nullptr;
         symbol_count[t] = 0;
@@ -463,8 +463,7 @@ bool Bin_xml_creator::CopySymbolTable()
         {
             XML_Binary_Type type;
             const char *name = src->getSymbol((SymbolTableTypes)t,i,type);
-            if (type != XBT_UNKNOWN)
-                FindOrAddTyped(name,(SymbolTableTypes)t,type);
+            FindOrAddTyped(name,(SymbolTableTypes)t,type); // unknown type is a type too, the name must not be lost
         }
     }
     return true;
-- 
2.43.0


From f65f0dc00f2ba6f59ea7f18339f50b2a3ac49833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 52/65] fix: texts of attributes were overwritten by following
 data in conversion of .xbw to .xb

---
 src/bin_xml_creator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 5015b7f..aebe57c 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -980,7 +980,9 @@ void Bin_xml_creator::XStoreBinParamsEvent(const char *param_name,int param_id,X
     }
 
     int content_size = 0;
-    if (XBT_IS_VARSIZE(type))
+    if (type == XBT_STRING)
+        content_size = strlen(param_value);
+    else if (XBT_IS_VARSIZE(type))
     {
         AA(param_value);
         content_size = *reinterpret_cast<const int32_t*>(param_value);
-- 
2.43.0


From 40a6546274d8e9f8910c04488164bb07928d8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 53/65] fix: values of type BLOB_STRING were lost in conversion
 of .xbw to .xb

---
 src/bin_write_plugin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index a9ce46b..0662daf 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2821,11 +2821,13 @@ const char *BW_plugin::getNodeValue(void *element)
 
 const char *BW_plugin::getNodeBinValue(void *element,XML_Binary_Type &type,int &size)
 {
+    type = XBT_NULL;
+    size = 0;
     if (element == nullptr) return nullptr; // no attributes
     BW_element *E = reinterpret_cast<BW_element*>(element);
     type = static_cast<XML_Binary_Type>(E->value_type);
     
-    if (type == XBT_BLOB || type == XBT_HEX)
+    if (XBT_IS_VARSIZE(type))
         size = *reinterpret_cast<int32_t*>(E+1);
     else if (type == XBT_STRING)
         size = strlen(reinterpret_cast<char*>(E+1));
-- 
2.43.0


From b12d74517ab97d4f31206143abd34b1b6b1698b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 54/65] fix: printing of a document used uninitialised type of
 value or missing value

---
 src/bin_xml_creator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index aebe57c..2d7c847 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -214,9 +214,14 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
 
 
 // value info
-    XML_Binary_Type value_type;
+    XML_Binary_Type value_type = XBT_UNKNOWN;
     int value_size = 0;
     const char *value = CTX->src->getNodeBinValue(element,value_type,value_size);    // binary value referenced
+    if (value_type == XBT_UNKNOWN) // source has only texts
+    {
+        value = CTX->src->getNodeValue(element);
+        value_type = XBT_STRING;
+    }
 
     if (CTX->sibling_count == 0) 
         if (value == nullptr) CTX->os << "/>\n";
@@ -229,7 +234,7 @@ void Bin_src_plugin::s_On2Stream(void *element,void *userdata)
         }
     else
     {
-        if (value_type != XBT_NULL)
+        if (value != nullptr && value_type != XBT_NULL)
         {
             for(int t = 0;t < deep+1;t++) CTX->os << "\t";
             XBT_ToXMLStream(value_type,value,CTX->os);
@@ -249,6 +254,7 @@ std::ostream& operator<<(std::ostream& os, Bin_src_plugin &src)
 {
     BIN_SRC_PLUGIN2STREAM_CONTEXT_t context = {0,0,&src,os};
     // void Bin_json_plugin::ForAllChildren(OnElement_t on_element,void *parent,void *userdata)
+    if (src.getRoot() == nullptr) return os; // nothing to print
     Bin_src_plugin::s_On2Stream(src.getRoot(),(void*)&context);
     return os;
 }
-- 
2.43.0


From 9478509d97e39d1e7db14124c746c275f99018df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:46 +0000
Subject: [PATCH 55/65] fix: creator without name of target used uninitialised
 pointer

---
 src/bin_xml_creator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 2d7c847..ba87e42 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -315,6 +315,7 @@ Bin_xml_creator::Bin_xml_creator(Bin_src_plugin *src,Bin_xml_creator_target targ
     this->src = src;
     this->src->LinkCreator(this); // link it
     this->src_allocated = false;
+    const char *dst = src->getFilename();
     this->target = target;
     if (target == XBTARGET_XB)
         this->dst = AllocFilenameChangeExt(dst,".xb");
-- 
2.43.0


From 064f8605aade442afa3619cdc45e8260612dde29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:46 +0000
Subject: [PATCH 56/65] fix: appending could overflow buffer, leave a part of
 element in file and append unreadable elements

---
 include/binary_xml/bin_xml_creator.h |  6 ++++
 src/bin_xml_creator.cpp              | 46 +++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_creator.h b/include/binary_xml/bin_xml_creator.h
index 22afa0b..c9ef8af 100644
--- a/include/binary_xml/bin_xml_creator.h
+++ b/include/binary_xml/bin_xml_creator.h
@@ -102,6 +102,7 @@ protected:
     bool                    symbol_limit_reached;
 // incremental addition
     int     dst_file;
+    bool    append_possible;
 public:
     Bin_xml_creator(const char *src,const char *dst,Bin_xml_creator_target target = XBTARGET_XB);
     Bin_xml_creator(Bin_src_plugin *src,const char *dst,Bin_xml_creator_target target = XBTARGET_XB);
@@ -130,6 +131,11 @@ protected:
     static void FitPassBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
     static void FitPassParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
         
+// pass to check that element can be appended
+    static void AppendCheckEvent(void *element,void *userdata,int deep);
+    static void AppendCheckBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata);
+    static void AppendCheckParamEvent(const char *param_name,const char *param_value,void *element,void *userdata);
+
         int32_t FillData();
             const char *WriteChildSymbols(char **_wp,tag_name_id_t tag_name,int symbol_table);
             const char *WritePayloadContainer(char **_wp,tag_name_id_t tag_name,void *root);
diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index ba87e42..0642481 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -508,8 +508,37 @@ bool Bin_xml_creator::MakeSymbolTable()
     return true;
 }
 
+void Bin_xml_creator::AppendCheckEvent(void *element,void *userdata,int deep)
+// appended element can use only symbols of existing document and cannot be open-ended
+{
+    Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
+    if (_this->Find(_this->src->getNodeName(element),SYMBOL_TABLE_NODES) < 0)
+        _this->append_possible = false;
+    if (!_this->src->ForAllBinParams(AppendCheckBinParamEvent,element,userdata))
+        _this->src->ForAllParams(AppendCheckParamEvent,element,userdata);
+}
+
+void Bin_xml_creator::AppendCheckBinParamEvent(const char *param_name,int param_id,XML_Binary_Type type,const char *param_value,void *element,void *userdata)
+{
+    AppendCheckParamEvent(param_name,nullptr,element,userdata);
+}
+
+void Bin_xml_creator::AppendCheckParamEvent(const char *param_name,const char *param_value,void *element,void *userdata)
+{
+    Bin_xml_creator *_this = reinterpret_cast<Bin_xml_creator*>(userdata);
+    if (_this->Find(param_name,SYMBOL_TABLE_PARAMS) < 0)
+        _this->append_possible = false;
+}
+
 bool Bin_xml_creator::Append(void *element)
 {
+    ASSERT_NO_RET_FALSE(2154,element != nullptr);
+    ASSERT_NO_RET_FALSE(2155,data != nullptr); // document must be made first, elements use it's symbol tables
+
+    append_possible = true;
+    src->ForAllChildrenRecursively(AppendCheckEvent,element,(void*)this,0);
+    ASSERT_NO_RET_FALSE(2149,append_possible); // some symbols are not in document
+
     if (dst_file == -1)
     {
         dst_file = open(dst,O_WRONLY | O_APPEND); // file must already exist
@@ -530,15 +559,30 @@ bool Bin_xml_creator::Append(void *element)
     }
     int file_align = file_info.st_size & 0xf; // use alignemenet like length of file
 
+// element can be bigger than whole original document
+    data_size_needed = 64;
+    src->ForAllChildrenRecursively(FirstPassEvent,element,(void*)this,0);
+    ASSERT_NO_RET_FALSE(2150,data_size_needed <= 0x7fffffff - file_info.st_size); // limit of relative_ptr_t
+    if (data_size_needed > data_size_allocated)
+    {
+        char *bigger_data = reinterpret_cast<char *>(calloc(1,data_size_needed));
+        ASSERT_NO_RET_FALSE(2151,bigger_data != nullptr);
+        free(data);
+        data = bigger_data;
+        data_size_allocated = data_size_needed;
+    }
+
     char *wp = data+file_align;
     AA(wp);
-    this->WriteNode(&wp,element);
+    ASSERT_NO_RET_FALSE(2152,this->WriteNode(&wp,element) != nullptr);
     
     int size = wp - data - file_align;
     int written = write(dst_file,data+file_align,size);
     if (written != size)
     {
             std::cerr << "error: " << strerror(errno) << " cannot append " << size << "B\n";
+            if (ftruncate(dst_file,file_info.st_size) != 0) // part of element would hide everything appended later
+                ERRNO_SHOW(2153,"ftruncate",dst);
             return false;
     }
     
-- 
2.43.0


From 5cdfc53724542e3bc1d04e218d40b693b0ec7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:28 +0000
Subject: [PATCH 57/65] fix: conversion of XML to xbw crashed at missing or
 mixed values, exited or skipped what could not be stored

---
 src/bin_xml_creator.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 0642481..8a17233 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -700,6 +700,7 @@ struct MakingXBW_1node
     BW_element      *dst_bw_element;
     const char      *param_name;
     const char      *param_value;
+    bool            *failed;        // something was not stored
 };
 
 bool Bin_xml_creator::Make_xbw()
@@ -743,10 +744,10 @@ bool Bin_xml_creator::Make_xbw()
     ASSERT_NO_RET_FALSE(2053,W.Initialize());
     // 3.3 tags
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_NODES];i++)
-        W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i]));
+        ASSERT_NO_RET_FALSE(2156,W.registerTag(i,symbol_table[SYMBOL_TABLE_NODES][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_NODES][i])));
     // 3.4 attrs
     for(int i = 0;i < symbol_count[SYMBOL_TABLE_PARAMS];i++)
-        W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i]));
+        ASSERT_NO_RET_FALSE(2157,W.registerAttr(i,symbol_table[SYMBOL_TABLE_PARAMS][i],static_cast<XML_Binary_Type>(symbol_table_types[SYMBOL_TABLE_PARAMS][i])));
     // 3.5 symbols done
     ASSERT_NO_RET_FALSE(2054,W.allRegistered());
 
@@ -758,9 +759,12 @@ bool Bin_xml_creator::Make_xbw()
     node_info.dst_bw_element = nullptr;
     node_info.param_name = nullptr;
     node_info.param_value = nullptr;
+    bool failed = false;
+    node_info.failed = &failed;
 
     XStore2XBWEvent(root,&node_info);
     ASSERT_NO_RET_FALSE(2059,node_info.dst_bw_element != nullptr);
+    ASSERT_NO_RET_FALSE(2158,!failed); // part of document would be missing
     W.setRoot(node_info.dst_bw_element);
 //typedef void (*OnElement_t)(void *element,void *userdata);
 
@@ -1181,24 +1185,32 @@ void Bin_xml_creator::XStore2XBWEvent(void *element,void *userdata)
     
     // NOW SLOW but SAFE solution
     // 1st pass - detecting real size
-        int size = XBT_SizeFromString(value,tag_type); // TODO: not finished BLOB detection!!!
+        if (value == nullptr || *value == '\0')
+            tag_type = XBT_NULL; // no value
+        else if (tag_type == XBT_VARIANT || tag_type == XBT_UNKNOWN || tag_type == XBT_NULL)
+            tag_type = XBT_Detect(value); // every value has its own type
+        int size = tag_type == XBT_NULL ? 0 : XBT_SizeFromString(value,tag_type);
+        ASSERT_NO_RET(2159,size >= 0);
         int size2 = XBT_Size2(tag_type,size);
+        ASSERT_NO_RET(2160,size2 >= 0);
         //int align = XBT_Align(tag_type);
         
-        ASSERT_NO_EXIT_1(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/));    // this is faster, as I know, where plugin is
+        ASSERT_NO_RET(2069,bw->makeSpace(sizeof(BW_element)+size2+8/*max align*/));    // this is faster, as I know, where plugin is
 
-        BW_element *dst = node_info->dst_bw_element = pool->new_element(tag_type,size);
+        BW_element *dst = pool->new_element(tag_type,size);
         //printf("... %p[%d] (%d)\n",dst,size,dst->offset);
-        ASSERT_NO_EXIT_1(2074,dst != nullptr);
+        ASSERT_NO_RET(2074,dst != nullptr);
         dst->identification = id;
         dst->flags = flags;; // element and not attribute
     // bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit);
         char *wp = reinterpret_cast<char*>(dst+1);
         char *limit = wp + size2;
-        ASSERT_NO_EXIT_1(2062,XBT_FromString(value,tag_type,&wp,limit));
+        ASSERT_NO_RET(2062,tag_type == XBT_NULL || XBT_FromString(value,tag_type,&wp,limit));
+        node_info->dst_bw_element = dst;
     }
     else
     { // xbw2xbw variant
+        ASSERT_NO_RET(2161,NOT_IMPLEMENTED);
     }
 //-----------------------------------------------
     if (st_type == SYMBOL_TABLE_NODES) 
@@ -1243,6 +1255,8 @@ void Bin_xml_creator::XBWStoreParamsEvent(const char *param_name,const char *par
         //printf("\t%d.add(%d)\n",node_info->dst_bw_element->offset,subnode_info.dst_bw_element->offset);
         node_info->dst_bw_element->add(subnode_info.dst_bw_element);
     }
+    else
+        *node_info->failed = true;
 }
 
 void Bin_xml_creator::XBWStoreChildrenEvent(void *element,void *userdata)
@@ -1262,6 +1276,8 @@ void Bin_xml_creator::XBWStoreChildrenEvent(void *element,void *userdata)
         //printf("\t%d.add(%d)\n",node_info->dst_bw_element->offset,subnode_info.dst_bw_element->offset);
         node_info->dst_bw_element->add(subnode_info.dst_bw_element);
     }
+    else
+        *node_info->failed = true;
 }
 
 //-------------------------------------------------------------------------------------------------
-- 
2.43.0


From 27b133a3cbdfb5986f99e5c5b1184dd57ff2c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 58/65] fix: copying between documents lost values and elements
 with typed names, used numbers of names of the source

---
 include/binary_xml/bin_write_plugin.h |   5 +
 src/bin_write_plugin.cpp              | 127 ++++++++++++++++++++++----
 2 files changed, 114 insertions(+), 18 deletions(-)

diff --git a/include/binary_xml/bin_write_plugin.h b/include/binary_xml/bin_write_plugin.h
index a90ba00..7bd81ff 100644
--- a/include/binary_xml/bin_write_plugin.h
+++ b/include/binary_xml/bin_write_plugin.h
@@ -329,6 +329,11 @@ public: // tag creation
     BW_element*     CopyPath(XB_reader &xb,XML_Item *root,...);
     BW_element*     CopyPathOnly(XB_reader &xb,XML_Item *root,...);
     BW_element*     CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src);
+    int             tagIdOf(XB_reader &xb,int xb_id);   // translates numbers of names
+    int             attrIdOf(XB_reader &xb,int xb_id);
+    BW_element*     copyValue(int16_t id,XML_Binary_Type type,XML_Binary_Data_Ref &data,int flags);
+    BW_element*     copyTag(XB_reader &xb,XML_Item *src,bool with_value);
+    BW_element*     copyAttr(XB_reader &xb,int xb_id,XML_Binary_Data_Ref &data);
 private:
     BW_element*     CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap);
 public: // Bin_src_plugin
diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 0662daf..d61e2a5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -676,7 +676,11 @@ BW_element*     BW_element::attrCopy(XB_reader &xb,XML_Item *X,XML_Param_Descrip
 {
     if (THIS_IS_NULL) return nullptr;
     XML_Binary_Data_Ref data = param_desc->getData(X);
-    return attrData(param_desc->name,data);
+    BW_plugin *plugin = plugins.getPlugin(getPool());
+    ASSERT_NO_RET_NULL(2162,plugin != nullptr);
+    BW_element *attr = plugin->copyAttr(xb,param_desc->name,data);
+    ASSERT_NO_RET_NULL(2163,attr != nullptr);
+    return add(attr);
 }
 
 BW_element  *BW_element::attrGet(int16_t id)
@@ -1178,7 +1182,9 @@ BW_element*  BW_element::CopyKeys(XB_reader &xb,XML_Item *src)
 // must be empty element
     ASSERT_NO_RET_NULL(1978,first_child == 0);
     ASSERT_NO_RET_NULL(1979,first_attribute == 0);
-    ASSERT_NO_RET_NULL(1981,identification == (int16_t)src->name); // must be the same element type
+    BW_plugin *plugin = plugins.getPlugin(getPool());
+    ASSERT_NO_RET_NULL(2164,plugin != nullptr);
+    ASSERT_NO_RET_NULL(1981,identification == plugin->tagIdOf(xb,src->name)); // must be the same element type
 
     for(int i = 0;i < src->paramcount;i++)
     {
@@ -1194,6 +1200,9 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
 // when some element miss, it should return false
 {
     if (src == nullptr) return false;
+    BW_pool *pool = getPool();
+    BW_plugin *plugin = plugins.getPlugin(pool);
+    ASSERT_NO_RET_FALSE(2165,plugin != nullptr);
 
     // I must remember all processed keys
     int checked_params[MAX_PARAM_KEYS];
@@ -1207,10 +1216,11 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
         
         // for all params
         if (first_attribute == 0) return false; // no key
+        const int attr_id = plugin->attrIdOf(xb,pd->name);
         BW_element *child = BWE(first_attribute);
         for(;;)
         {
-            if (child->identification == pd->name)
+            if (child->identification == attr_id)
             {
                 XML_Binary_Data_Ref pd_data = pd->getData(src); 
                 if (pd_data.data == nullptr) return false;
@@ -1229,7 +1239,7 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
         }
 
         ASSERT_NO_RET_FALSE(1990,checked_params_count < MAX_PARAM_KEYS);
-        checked_params[checked_params_count++] = pd->name;
+        checked_params[checked_params_count++] = attr_id;
     }
 // BW_element pass
     if (first_attribute != 0)
@@ -1237,12 +1247,14 @@ bool         BW_element::EqualKeys(XB_reader &xb,XML_Item *src)
         BW_element *child = BWE(first_attribute);
         for(;;)
         {
-            if (xb.ParamIsKey(child->identification))
+            bool ok = false;
+            for(int i = 0;!ok && i < checked_params_count;i++)
+                ok = (child->identification == checked_params[i]);
+            if (!ok)
             {
-                bool ok = false;
-                for(int i = 0;!ok && i < checked_params_count;i++)
-                    ok = (child->identification == checked_params[i]);
-                if (!ok) return false; // not found
+                const char *name = pool->getAttrName(child->identification); // numbers of names in source can be different
+                int xb_id = name != nullptr ? xb.getParamID(name) : -1;
+                if (xb_id >= 0 && xb.ParamIsKey(xb_id)) return false; // not found
             }
             if (child->next == first_attribute) break;
             child = BWE(child->next);
@@ -2682,18 +2694,90 @@ BW_element* BW_plugin::CopyPathOnly(XB_reader &xb,XML_Item *root,...)
     return result;
 }
 
+#define NAME_NOT_REGISTERED (-0x8000)
+
+int BW_plugin::tagIdOf(XB_reader &xb,int xb_id)
+// number of name in this document
+{
+    if (xb_id < 0) return xb_id; // system names
+    const char *name = xb.getNodeName(xb_id);
+    const char *my_name = xb_id <= pool->tags.max_id ? pool->getTagName(xb_id) : nullptr;
+    if (my_name != nullptr && strcmp(name,my_name) == 0) return xb_id; // the same numbers - it's fast
+    int id = pool->tags.max_id < 0 ? -1 : pool->tags.getByName(pool,name,nullptr,nullptr);
+    return id >= 0 ? id : NAME_NOT_REGISTERED;
+}
+
+int BW_plugin::attrIdOf(XB_reader &xb,int xb_id)
+{
+    if (xb_id < 0) return xb_id;
+    const char *name = xb.getParamName(xb_id);
+    const char *my_name = xb_id <= pool->params.max_id ? pool->getAttrName(xb_id) : nullptr;
+    if (my_name != nullptr && strcmp(name,my_name) == 0) return xb_id;
+    int id = pool->params.max_id < 0 ? -1 : pool->params.getByName(pool,name,nullptr,nullptr);
+    return id >= 0 ? id : NAME_NOT_REGISTERED;
+}
+
+BW_element* BW_plugin::copyValue(int16_t id,XML_Binary_Type type,XML_Binary_Data_Ref &data,int flags)
+// text is converted to the type of its name, when possible, other values keep their types
+{
+    if (data.type == XBT_STRING && type != XBT_STRING && type != XBT_VARIANT && type != XBT_NULL && type != XBT_UNKNOWN && data.size < 0x10000)
+    {
+        char *buffer = reinterpret_cast<char*>(alloca(data.size+64));
+        char *p = buffer;
+        if (XBT_FromString(data.data,type,&p,buffer+data.size+64))
+        {
+            data.type = type;
+            data.data = buffer;
+            data.size = p - buffer;
+        }
+    }
+    if (data.type == XBT_NULL || data.type == XBT_UNKNOWN)
+    {
+        data.type = XBT_NULL;
+        data.size = 0;
+    }
+
+    ASSERT_NO_RET_NULL(2166,makeSpace(sizeof(BW_element)+data.size+16)); // +alignment
+    BW_element* result = reinterpret_cast<BW_element*>(pool->allocate8(sizeof(BW_element)+data.size));
+    ASSERT_NO_RET_NULL(2167,result != nullptr);
+    result->init(pool,id,data.type,flags);
+    memcpy(result+1,data.data,data.size);
+    return result;
+}
+
+BW_element* BW_plugin::copyTag(XB_reader &xb,XML_Item *src,bool with_value)
+{
+    int id = tagIdOf(xb,src->name);
+    ASSERT_NO_RET_NULL(2168,id != NAME_NOT_REGISTERED);
+    XML_Binary_Data_Ref data = src->getData();
+    if (!with_value) data.type = XBT_NULL;
+    return copyValue(id,pool->getTagType(id),data,BIN_WRITE_ELEMENT_FLAG);
+}
+
+BW_element* BW_plugin::copyAttr(XB_reader &xb,int xb_id,XML_Binary_Data_Ref &data)
+{
+    int id = attrIdOf(xb,xb_id);
+    ASSERT_NO_RET_NULL(2169,id != NAME_NOT_REGISTERED);
+    return copyValue(id,pool->getAttrType(id),data,BIN_WRITE_ATTR_FLAG);
+}
+
 BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Item *root,va_list ap)
 {
 // source root
     if (root == nullptr) return nullptr; // nothing? OK
     ASSERT_NO_RET_NULL(1975,root == xb.getRoot());
 
+// next element of path
+    XML_Item *element = va_arg(ap,XML_Item *);
+
 // destination root
     BW_element* root2;
     bool copy;
     if (pool->root == 0) // no root element -> create one
     {
-        setRoot(root2 = tag(root->name));
+        root2 = copyTag(xb,root,copy_whole_last_node && element == nullptr);
+        ASSERT_NO_RET_NULL(2170,root2 != nullptr);
+        setRoot(root2);
         copy = true;
     }
     else
@@ -2706,14 +2790,16 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             if (root2->first_child == 0)
             {
                 // content encapsulated in <transaction>
-                root2->first_child = tag(root->name)->offset;
+                BW_element *child = copyTag(xb,root,copy_whole_last_node && element == nullptr);
+                ASSERT_NO_RET_NULL(2171,child != nullptr);
+                root2->first_child = child->offset;
                 copy = true;
             }
             root2 = BWE(root2->first_child);
         }
         if (!copy)
         {
-            ASSERT_NO_RET_NULL(1974,root2->identification == root->name); // root element must be the same
+            ASSERT_NO_RET_NULL(1974,root2->identification == tagIdOf(xb,root->name)); // root element must be the same
             ASSERT_NO_RET_NULL(1976,root2->EqualKeys(xb,root));
         }
     }
@@ -2728,7 +2814,6 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
 
     for(;;)
     {
-        XML_Item *element = va_arg(ap,XML_Item *);
         if (element == nullptr) 
         {
             // Recursive copy of last element
@@ -2743,6 +2828,8 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         }
         if (copy) ASSERT_NO_RET_NULL(1994,dst->CopyKeys(xb,src) != nullptr);
     //---------------------------------------------------------------------------------------------
+        XML_Item *next = va_arg(ap,XML_Item *);
+        const int element_id = tagIdOf(xb,element->name);
         BW_element *element2 = nullptr;
         // 1. Find element in dst
         if (dst->first_child != 0)
@@ -2750,7 +2837,7 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
             BW_element *child  = BWE(dst->first_child);
             for(;;)
             {
-                if (child->identification == (int16_t)element->name && child->EqualKeys(xb,element))
+                if (child->identification == element_id && child->EqualKeys(xb,element))
                 { // Found!
                     element2 = child;
                     break;
@@ -2762,12 +2849,15 @@ BW_element* BW_plugin::CopyPath_(bool copy_whole_last_node,XB_reader &xb,XML_Ite
         // 2. Create if missing
         if (element2 == nullptr)
         {
-            dst->add(element2 = tag(element->name));
+            element2 = copyTag(xb,element,copy_whole_last_node && next == nullptr);
+            ASSERT_NO_RET_NULL(2172,element2 != nullptr);
+            dst->add(element2);
             copy = true;
         }
         else copy = false;
         src = element;
         dst = element2;
+        element = next;
     }
 //-----------
 
@@ -2781,7 +2871,7 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
     ASSERT_NO_RET_NULL(2005,dst != nullptr);
     ASSERT_NO_RET_NULL(1997,dst->first_child == 0);
     ASSERT_NO_RET_NULL(1998,dst->first_attribute == 0);
-    ASSERT_NO_RET_NULL(1999,dst->identification == (int16_t)src->name); // must be the same element type
+    ASSERT_NO_RET_NULL(1999,dst->identification == tagIdOf(xb,src->name)); // must be the same element type
 
     for(int i = 0;i < src->paramcount;i++)
     {
@@ -2791,8 +2881,9 @@ BW_element*     BW_plugin::CopyAll(BW_element *dst,XB_reader &xb,XML_Item *src)
     for(int i = 0;i < src->childcount;i++)
     {
         XML_Item *child = src->getChildByIndex(i);
-        XML_Binary_Data_Ref data = child->getData();
-        BW_element *child2 = CopyAll(tagData(child->name,data),xb,child);
+        BW_element *child2 = copyTag(xb,child,true);
+        ASSERT_NO_RET_NULL(2173,child2 != nullptr);
+        ASSERT_NO_RET_NULL(2174,CopyAll(child2,xb,child) != nullptr);
         dst->add(child2);
     }
     return dst;
-- 
2.43.0


From ccf80ecc4876ceebf678053ac6cb5402ad5f1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:23 +0000
Subject: [PATCH 59/65] fix: a conversion without space for its result fails
 instead of an abort

---
 src/bin_xml_creator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index 8a17233..e03dcab 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -429,7 +429,12 @@ bool Bin_xml_creator::Make_xb()
         }
         AA(dst_file_size);
         int written = write(dst_file,data,dst_file_size);
-        assert(written == dst_file_size);
+        if (written != dst_file_size)
+        {
+            std::cerr << "error: " << strerror(errno) << " cannot write " << dst_file_size << "B to " << dst << "\n";
+            close(dst_file);
+            return false;
+        }
 
         close(dst_file);
     }
@@ -448,7 +453,8 @@ bool Bin_xml_creator::Make_xb()
     AA(dst_file_size);
     int written = 
         write(dst_file,data,dst_file_size);
-    assert(written == dst_file_size);
+    if (written != dst_file_size)
+        std::cerr << "error: " << strerror(errno) << " cannot write " << dst_file_size << "B to " << dst << "\n";
 
     close(dst_file);
 
-- 
2.43.0


From 993ce74186f61f62eb565a9ed305ce1e9e3a57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:23 +0000
Subject: [PATCH 60/65] fix: changing extension keeps directories with a dot in
 their name

---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 6c93f70..569e675 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -240,6 +240,7 @@ char *AllocFilenameChangeExt(const char *filename,const char *extension,const ch
         return new_name;
     }
     const char *dot = strrchr(filepath,'.');
+    if (dot != nullptr && strchr(dot,'/') != nullptr) dot = nullptr; // it is in name of directory
     int len = (dot != nullptr ? dot - filepath : strlen(filepath));
     int ext_len = strlen(extension);
 
-- 
2.43.0


From b9d47f4119ba892c3ef1f90bf56e0657fcc46b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:23 +0000
Subject: [PATCH 61/65] fix: GetXB returns the name of the .xb made of a .wsdl

---
 src/bin_xml_packer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/bin_xml_packer.cpp b/src/bin_xml_packer.cpp
index a974004..a5aaec7 100644
--- a/src/bin_xml_packer.cpp
+++ b/src/bin_xml_packer.cpp
@@ -361,18 +361,15 @@ bool Bin_xml_packer::GetXB(const char *xml_filename,char *xb_filename,const char
         return false;
     }
 	
-    int len = strlen(xml_filename);
     // XML extension check
-    if (strcmp(dot,".wsdl") == 0) len--; // shorted!
-    else if (strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
+    if (strcmp(dot,".wsdl") != 0 && strcmp(dot,".xml") != 0 && strcmp(dot,".xsd") != 0)
     {
         *err_message = "expected file with .xml (or .xsd or .wsdl) extension!";
         return false;
     }
     // XB creation
     strcpy(xb_filename,xml_filename);
-    xb_filename[len-1] = 0;
-    xb_filename[len-2] = 'b';
+    strcpy(xb_filename + (dot - xml_filename),".xb");
 
     Bin_xml_packer BXP(xml_filename,xb_filename);
 
-- 
2.43.0


From a7ebd7fa201be3d141a1c37ac6410a480f5404f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:23 +0000
Subject: [PATCH 62/65] fix: a source with unknown extension is refused

---
 src/bin_xml_creator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index e03dcab..e0bcf1d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -377,6 +377,7 @@ bool Bin_xml_creator::DoAll()
 
 bool Bin_xml_creator::Make_xb()
 {
+    ASSERT_NO_RET_FALSE(2159,src != nullptr); // unknown extension
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
@@ -711,6 +712,7 @@ struct MakingXBW_1node
 
 bool Bin_xml_creator::Make_xbw()
 {
+    ASSERT_NO_RET_FALSE(2160,src != nullptr); // unknown extension
     if (!src->Initialize()) return false;
 
     // 1. filling symbol tables----------------------
-- 
2.43.0


From 1e205ebfcad4a31ba65326be873316a6590e2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:38 +0000
Subject: [PATCH 63/65] fix: a shared-memory document which cannot be created
 for lack of space is refused instead of a crash

---
 src/bin_write_plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d61e2a5..189b62a 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1975,6 +1975,9 @@ bool BW_plugin::InitEmptyFile()
     if (ftruncate(fd,BW2_INITIAL_FILE_SIZE) < 0)
     {
         ERRNO_SHOW(1105,"ftruncate",filename);
+        if (munmap(pool,max_pool_size) != 0) // there is no file behind the mapping, it cannot be touched
+            ERRNO_SHOW(2165,"munmap",filename);
+        pool = nullptr;
         return false;
     }
     ASSERT_NO_RET_FALSE(1106,pool != nullptr);
-- 
2.43.0


From 778c75617094ad1db8651f1f39276de86b5e1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 64/65] fix: opening of a foreign file as a shared-memory
 document does not crash in the report of it

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 189b62a..8032f83 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1653,7 +1653,7 @@ const char *BW_pool::getDocTypeName()
 //    {
 //        return doc_type_name;
 //    }
-    if (root > getPoolSize() && root < allocator)
+    if (check_id() && root > getPoolSize() && root < allocator) // anything can be in a foreign file
     {
         BW_element *root = BWE(this->root);   
         ASSERT_NO_RET_(2114,root->flags & BIN_WRITE_ELEMENT_FLAG,"(bad root flags)");
-- 
2.43.0


From 882f3c317e69354944966d84ab3d64346972cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:04 +0000
Subject: [PATCH 65/65] fix: a shared-memory document is not converted over
 itself

---
 src/bin_xml_creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin_xml_creator.cpp b/src/bin_xml_creator.cpp
index e0bcf1d..96d6d7d 100644
--- a/src/bin_xml_creator.cpp
+++ b/src/bin_xml_creator.cpp
@@ -714,6 +714,9 @@ bool Bin_xml_creator::Make_xbw()
 {
     ASSERT_NO_RET_FALSE(2160,src != nullptr); // unknown extension
     if (!src->Initialize()) return false;
+    struct stat src_info,dst_info;
+    if (stat(src->getFilename(),&src_info) == 0 && stat(dst,&dst_info) == 0) // source cannot be read when it is overwritten
+        ASSERT_NO_RET_FALSE(2164,src_info.st_dev != dst_info.st_dev || src_info.st_ino != dst_info.st_ino);
 
     // 1. filling symbol tables----------------------
     this->total_node_count = 4; // service elements!
-- 
2.43.0

