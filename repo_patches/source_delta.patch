From 14fdc1d356784bba7d6ef06c62c526c1388cb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 001/106] fix: InputSource::setByteStream takes ownership of
 the unique_ptr it is given

The body copied the std::unique_ptr, so any use of the function failed to compile.
---
 include/SAX/InputSource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/InputSource.hpp b/include/SAX/InputSource.hpp
index cccc879..6c02a14 100644
--- a/include/SAX/InputSource.hpp
+++ b/include/SAX/InputSource.hpp
@@ -263,7 +263,7 @@ public:
    */
   void setByteStream(std::unique_ptr<std::istream> byteStream)
   {
-    byteStream_ = byteStream;
+    byteStream_ = std::move(byteStream);
   } // setByteStream
 
   /**
-- 
2.43.0


From f7a2d81ff1bcb49bbbcd22e6b956322c40068d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 002/106] fix: DOM insertBefore/replaceChild/appendChild check
 everything before changing the tree

---
 include/DOM/Simple/DocumentImpl.hpp | 38 +++++++++++++++++-------
 include/DOM/Simple/NodeImpl.hpp     | 45 ++++++++++++++++++++++-------
 2 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..33829cd 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -394,8 +394,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
     {
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0))
-        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkSingleElement(newChild, 0);
       if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
@@ -411,20 +410,23 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
     {
-      checkChildType(newChild);
+      if(newChild->getNodeType() != DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+        checkChildType(newChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
-        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         (documentElement_ != 0) &&
-         (documentElement_ != oldChild))
+      // as in removeChild, the document type stays where it is
+      if((documentType_ != 0) &&
+         ((documentType_ == oldChild) || (newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkSingleElement(newChild, oldChild);
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
+      if((documentElement_ == oldChild) && (newChild != oldChild) && (oldChild->getParentNode() == 0))
+        documentElement_ = static_cast<DOMElement_implT*>(0);
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
         documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)
+        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
 
       return result;
     } // replaceChild
@@ -512,6 +514,22 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     const stringT& empty_string() const { return empty_; }
 
   private:
+    // adding newChild in place of oldChild must leave at most one element child
+    void checkSingleElement(DOMNode_implT* newChild, DOMNode_implT* oldChild) const
+    {
+      int elements = 0;
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+        elements = 1;
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+        for(DOMNode_implT* c = newChild->getFirstChild(); c != 0; c = c->getNextSibling())
+          if(c->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+            ++elements;
+      if(elements != 0 && documentElement_ != 0 && documentElement_ != oldChild && documentElement_ != newChild)
+        ++elements;
+      if(elements > 1)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+    } // checkSingleElement
+
     void checkChildType(DOMNode_implT* child)
     {
       typename DOM::Node_base::Type type = child->getNodeType();
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..5ef240a 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -389,15 +389,20 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     NodeImplT* do_insertBefore(NodeImplT* newChild, NodeImplT* refChild)
     {
       NodeImplT::throwIfReadOnly();
+      if(refChild)
+        findChild(refChild);
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
+        checkCanAddChildren(newChild);
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
           insertBefore(newChild->removeChild(child), refChild);
         return newChild;
       } // if ...
 
       checkCanAdd(newChild);
+      if(newChild == refChild)
+        return newChild;
       removeIfRequired(newChild);
       if(refChild)
       {
@@ -430,17 +435,25 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     NodeImplT* do_replaceChild(NodeImplT* newChild, NodeImplT* oldChild)
     {
       NodeImplT::throwIfReadOnly();
+      findChild(oldChild);
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
-        // not exception safe - but the it's not specified to be :(
+        checkCanAddChildren(newChild);
         DOMNode_implT* lc = newChild->getLastChild();
+        if(lc == 0)
+        {
+          removeChild(oldChild);
+          return oldChild;
+        } // if ...
         replaceChild(newChild->removeChild(lc), oldChild);
         insertBefore(newChild, lc);
         return oldChild;
       } // if ...
 
       checkCanAdd(newChild);
+      if(newChild == oldChild)
+        return oldChild;
       removeIfRequired(newChild);
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
@@ -493,7 +506,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
     void do_purgeChild(NodeImplT* oldChild)
     {
-      oldChild = do_removeChild(oldChild);
+      removeChild(oldChild);
       NodeImplT::ownerDoc_->purge(oldChild);
     } // do_purgeChild
 
@@ -519,19 +532,12 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       DocumentImplT* childDoc = child->getOwnerDoc();
       if(childDoc == 0)
       {
+        checkChildType(child);
         child->setOwnerDoc(NodeImplT::getOwnerDoc());
         return;
       } //
 
-      if(child->getNodeType() == DOM::Node_base::DOCUMENT_NODE)
-      {
-        if(childDoc != dynamic_cast<DocumentImplT*>(this))
-          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
-      } // if(parent is a Document)
-
-      if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
-        throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
+      checkSameDocument(childDoc);
 
       for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
 	if(n == child)
@@ -540,6 +546,23 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       checkChildType(child);
     } // checkCanAdd
 
+    // check everything before moving anything, so a refused fragment is left intact
+    void checkCanAddChildren(NodeImplT* fragment)
+    {
+      checkSameDocument(fragment->getOwnerDoc());
+      for(DOMNode_implT* n = this; n != 0; n = n->getParentNode())
+        if(n == fragment)
+          throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      for(NodeImplT* child = fragment->getFirst(); child != 0; child = child->getNext())
+        checkCanAdd(child);
+    } // checkCanAddChildren
+
+    void checkSameDocument(DocumentImplT* childDoc) const
+    {
+      if(NodeImplT::getOwnerDoc() && childDoc != NodeImplT::getOwnerDoc())
+        throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
+    } // checkSameDocument
+
     virtual void checkChildType(DOMNode_implT* child) = 0;
 
     void markChanged()
-- 
2.43.0


From 1fdefe079f2086fd5f49f2e7f295c975e2d66d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:55 +0000
Subject: [PATCH 003/106] fix: attribute maps keep owner elements right and set
 values in place

---
 include/DOM/Simple/AttrImpl.hpp         |  4 +-
 include/DOM/Simple/AttrMap.hpp          | 58 ++++++++++++++++++++-----
 include/DOM/Simple/NamedNodeMapImpl.hpp | 15 +++++++
 3 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..8752a64 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -148,7 +148,9 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     void setOwnerElement(ElementImplT* element)
     {
       ownerElement_ = element;
-      if(NodeT::ownerDoc_)
+      if(NodeT::ownerDoc_ && !element)
+        NodeT::ownerDoc_->removeElementId(this);
+      if(NodeT::ownerDoc_ && element)
       {
         NodeT::ownerDoc_->adopted(this);  // don't have a parent but are owned
         DocumentTypeImpl<stringT, string_adaptorT>* docType = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(NodeT::ownerDoc_->getDoctype());
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..7c41526 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -37,13 +37,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     /////////////////////////////////////////////////////
     virtual DOMNode_implT* setNamedItem(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkIsAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
+      DOMNode_implT* replaced = NamedNodeMapImplT::setNamedItem(attr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
+      return dynamic_cast<DOMAttr_implT*>(replaced);
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
@@ -70,9 +71,16 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
+      DOMNode_implT* existing = NamedNodeMapImplT::getNamedItem(name);
+      if(existing)
+      {
+        existing->setNodeValue(value);
+        return;
+      } // if ...
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
-      a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItem(a);
+      a->setOwnerElement(ownerElement_);
     } // setAttribute
 
     void removeAttribute(const stringT& name)    
@@ -94,7 +102,11 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      NamedNodeMapImplT::removeItem(dynamic_cast<AttrImplT*>(oldAttr));
+      if(string_adaptorT::empty(oldAttr->getLocalName()))
+        createDefault(oldAttr->getNodeName());
+      else
+        createDefault(oldAttr->getNamespaceURI(), oldAttr->getLocalName());
       return oldAttr;
     } // removeAttributeNode
 
@@ -106,13 +118,23 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
                                        namespaceURI, 
                                        !string_adaptorT::empty(namespaceURI), 
                                        qualifiedName);
+      AttrNSImplT* existing = dynamic_cast<AttrNSImplT*>(NamedNodeMapImplT::getNamedItemNS(a->getNamespaceURI(), a->getLocalName()));
+      if(existing)
+      {
+        if(existing->getPrefix() != a->getPrefix())
+          existing->setPrefix(a->getPrefix());
+        delete a;
+        existing->setValue(value);
+        return;
+      } // if ...
       a->setValue(value);
-      a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItemNS(a);
+      a->setOwnerElement(ownerElement_);
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -132,13 +154,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     virtual DOMNode_implT* setNamedItemNS(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkIsAttr(newAttr);
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
+      DOMNode_implT* replaced = NamedNodeMapImplT::setNamedItemNS(newAttr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return dynamic_cast<DOMAttr_implT*>(replaced);
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -181,8 +204,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       if(attrs)
       {
         DOMNode_implT* attr = attrs->getNamedItemNS(namespaceURI, localName);
-        if(attr)
-          setAttributeNodeNS(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
+        if(attr && !hasAttribute(attr->getNodeName()))
+          setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
       } 
     } // createDefault
 
@@ -194,8 +217,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         for(unsigned int i = 0; i < attrs->getLength(); ++i)
         {
           DOMNode_implT* attr = attrs->item(i);
-          if(getAttributeNodeNS(attr->getNamespaceURI(), attr->getNodeName()) == 0)
-            setAttributeNodeNS(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
+          if(getAttributeNode(attr->getNodeName()) == 0)
+            setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
         }
       } 
     } // getDefaults
@@ -215,6 +238,19 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return 0;
     } // getDefaultAttrs
 
+    virtual void released(NodeImpl<stringT, string_adaptorT>* node)
+    {
+      dynamic_cast<AttrImplT*>(node)->setOwnerElement(0);
+    } // released
+
+    AttrImplT* checkIsAttr(DOMNode_implT* node) const
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(!attr)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      return attr;
+    } // checkIsAttr
+
     bool alreadyHere(AttrImplT* attr)
     {
       return ((!attr->isOrphaned()) && (attr->getOwnerElement() == ownerElement_));
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..7749fd7 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -138,6 +138,8 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     {
       throwIfReadOnly();
       checkOwnerDocument(arg);
+      if(string_adaptorT::empty(arg->getLocalName())) // a Level 1 node, only identified by its name
+        return setNode(findByName(arg->getNodeName()), dynamic_cast<NodeImplT*>(arg));
       return setNode(findByNamespaceAndName(arg->getNamespaceURI(), arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
     } // setNamedItemNS
 
@@ -169,6 +171,15 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
         throw DOM::DOMException(DOM::DOMException::NO_MODIFICATION_ALLOWED_ERR);
     } // throwIfReadOnly
 
+    // called when a node leaves the map
+    virtual void released(NodeImplT* /*node*/) { }
+
+    NodeImplT* removeItem(NodeImplT* node)
+    {
+      throwIfReadOnly();
+      return removeNode(std::find(nodes_.begin(), nodes_.end(), node));
+    } // removeItem
+
     void checkOwnerDocument(const DOMNode_implT* arg)
     { 
       if(!ownerDoc_)
@@ -199,7 +210,10 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
 
       NodeImplT* removedNode = *n;
       *n = arg;
+      if(removedNode == arg)
+        return removedNode;
       ownerDoc_->orphaned(removedNode);
+      released(removedNode);
       return removedNode;
     } // setNode
 
@@ -210,6 +224,7 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
       NodeImplT* removedNode = *n;
       nodes_.erase(n);
       ownerDoc_->orphaned(removedNode);
+      released(removedNode);
       return removedNode;
     } // removeNode
 
-- 
2.43.0


From dfb03264cc84fdabba3b0a75dc96e2b1c2265b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 004/106] fix: Attr value follows changes to the data of its
 Text children

---
 include/DOM/Simple/AttrImpl.hpp | 47 +++++----------------------------
 1 file changed, 6 insertions(+), 41 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index 8752a64..bd0f373 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -29,8 +29,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
         NodeImplWithChildren<stringT, string_adaptorT>(ownerDoc),
         name_(ownerDoc->stringPool(name)),
         ownerElement_(0),
-        specified_(true),
-        valueCalculated_(false)
+        specified_(true)
     {
     } // AttrImpl
 
@@ -39,8 +38,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
         NodeImplWithChildren<stringT, string_adaptorT>(ownerDoc),
         name_(ownerDoc->stringPool(name)),
         ownerElement_(0),
-        specified_(true),
-        valueCalculated_(false)
+        specified_(true)
     {
       setNodeValue(value);
     } // AttrImpl
@@ -75,36 +73,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     virtual DOMNode_implT* getPreviousSibling() const { return 0; }
     virtual DOMNode_implT* getNextSibling() const { return 0; }
 
-    virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::insertBefore(newChild, refChild);
-    } // insertBefore
-
-    virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
-    { 
-      valueCalculated_ = false;
-      return NodeT::replaceChild(newChild, oldChild);
-    } // replaceChild
-
-    virtual DOMNode_implT* removeChild(DOMNode_implT* oldChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::removeChild(oldChild);
-    } // removeChild
-
-    virtual DOMNode_implT* appendChild(DOMNode_implT* newChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::appendChild(newChild);
-    } // appendChild
-
-    virtual void purgeChild(DOMNode_implT* oldChild)
-    {
-      valueCalculated_ = false;
-      NodeT::purgeChild(oldChild);
-    } // purgeChild
-
     virtual DOMNode_implT* cloneNode(bool /*deep*/) const
     {
       AttrImpl* a = dynamic_cast<AttrImpl*>(NodeT::ownerDoc_->createAttribute(*name_));
@@ -120,11 +88,10 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     virtual const stringT& getNodeValue() const
     {
-      if(!valueCalculated_)
-      {
-        value_ = concatNodes(NodeT::getFirstChild());
-        valueCalculated_ = true;
-      }
+      // always from the children, which can change without us being told
+      stringT value = concatNodes(NodeT::getFirstChild());
+      if(!(value == value_))
+        value_ = value;
       return value_;
     } // getNodeValue
 
@@ -139,7 +106,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       // add a new text node
       NodeT::appendChild(NodeT::ownerDoc_->createTextNode(data));
 
-      valueCalculated_ = false;
       specified_ = true;
     } // setNodeValue
 
@@ -203,7 +169,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     stringT const* name_;
     ElementImplT* ownerElement_;
     bool specified_;
-    mutable bool valueCalculated_;
     mutable stringT value_;
 }; // class AttrImpl
 
-- 
2.43.0


From 40b64ae3971b09e4862492e7ee078ed6af8d392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 005/106] fix: getElementById only finds elements in the
 document, never purged ones

---
 include/DOM/Simple/DocumentImpl.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index 33829cd..492651e 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -369,10 +369,11 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMElement_implT* getElementById(const stringT& elementId) const
     {
-      typename std::set<AttrImplT*>::const_iterator i = std::find_if(idNodes_.begin(), idNodes_.end(), valueIs<stringT, string_adaptorT>(elementId));
-      if(i == idNodes_.end())
-        return 0;
-      return (*i)->getOwnerElement();
+      valueIs<stringT, string_adaptorT> hasId(elementId);
+      for(typename std::set<AttrImplT*>::const_iterator i = idNodes_.begin(); i != idNodes_.end(); ++i)
+        if(hasId(*i) && isInDocument((*i)->getOwnerElement()))
+          return (*i)->getOwnerElement();
+      return 0;
     } // getElementById
 
     ////////////////////////////////////////////////////////
@@ -484,6 +485,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     void purge(NodeImplT* node)
     {
       orphans_.erase(node);
+      removeElementIds(node);
       delete node;
     } // purge
 
@@ -514,6 +516,23 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     const stringT& empty_string() const { return empty_; }
 
   private:
+    bool isInDocument(const DOMNode_implT* node) const
+    {
+      while(node != 0 && node != this)
+        node = node->getParentNode();
+      return node != 0;
+    } // isInDocument
+
+    void removeElementIds(DOMNode_implT* node)
+    {
+      DOM::NamedNodeMap_impl<stringT, string_adaptorT>* attrs = node->getAttributes();
+      if(attrs)
+        for(unsigned int i = 0; i < attrs->getLength(); ++i)
+          removeElementId(dynamic_cast<AttrImplT*>(attrs->item(i)));
+      for(DOMNode_implT* child = node->getFirstChild(); child != 0; child = child->getNextSibling())
+        removeElementIds(child);
+    } // removeElementIds
+
     // adding newChild in place of oldChild must leave at most one element child
     void checkSingleElement(DOMNode_implT* newChild, DOMNode_implT* oldChild) const
     {
-- 
2.43.0


From 9b37e0c5003033fb7cfc81a561dbeedea2dff5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 006/106] fix: live element lists notice every change before
 bounds are checked

---
 include/DOM/Simple/ElementByTagImpl.hpp | 8 ++++----
 include/DOM/Simple/ElementNSImpl.hpp    | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..3ff151c 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,12 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
-        return 0;
-
       if(changes_ != ownerDoc_->changes())
         populate();
 
+      if(index >= nodes_.size())
+        return 0;
+
       return nodes_[index];
     } // item
 
@@ -106,7 +106,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     {
       if(useNamespace_)
       {
-        if((node->hasNamespaceURI() && namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
+        if(namespaceURI_ == node->getNamespaceURI() || allNamespaces_)
         {
           if((tagName_ == node->getLocalName()) || (allNames_ && node->getNodeType() == DOM::Node<stringT, string_adaptorT>::ELEMENT_NODE))
             nodes_.push_back(node);
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..a431097 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -70,6 +70,8 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
     virtual void setPrefix(const stringT& prefix) 
     {
       ElementImplT::throwIfReadOnly();
+      if(!string_adaptorT::empty(prefix))
+        this->checkName(prefix);
 
       if(hasNamespaceURI_ == false) 
         throw DOM::DOMException(DOM::DOMException::NAMESPACE_ERR);
@@ -78,6 +80,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       {
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
+        ElementImplT::ownerDoc_->markChanged();
         return;
       } // empty prefix
 
@@ -89,6 +92,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
+      ElementImplT::ownerDoc_->markChanged();
     } // setPrefix
 
     virtual const stringT& getLocalName() const 
-- 
2.43.0


From 762ef600c5e837b1f5105bdd63508853b6c3c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 007/106] fix: Attr.setPrefix refuses read-only nodes and
 malformed prefixes

---
 include/DOM/Simple/AttrNSImpl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/DOM/Simple/AttrNSImpl.hpp b/include/DOM/Simple/AttrNSImpl.hpp
index a885ec8..5fae50b 100644
--- a/include/DOM/Simple/AttrNSImpl.hpp
+++ b/include/DOM/Simple/AttrNSImpl.hpp
@@ -77,6 +77,10 @@ class AttrNSImpl : public AttrImpl<stringT, string_adaptorT>
     
     virtual void setPrefix(const stringT& prefix) 
     {
+      AttrImplT::throwIfReadOnly();
+      if(!string_adaptorT::empty(prefix))
+        this->checkName(prefix);
+
       if(hasNamespaceURI_ == false) 
         throw DOM::DOMException(DOM::DOMException::NAMESPACE_ERR);
 
-- 
2.43.0


From 34980aa4e7839f71822f83f4ea0fe36931e32014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 008/106] fix: splitText works on nodes that have no parent

---
 include/DOM/Simple/CDATASectionImpl.hpp | 5 ++++-
 include/DOM/Simple/TextImpl.hpp         | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..653f0e6 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -35,7 +35,10 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
+      DOMNode_implT* parent = CharacterDataImplT::getParentNode();
+      if(parent)
+        parent->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..dc722af 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -36,6 +36,7 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
 
       TextImpl* splitNode = new TextImpl(CharacterDataT::getOwnerDoc(), second);
+      CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
-- 
2.43.0


From 2e1d03f6a639ab6856bc92814212f7b67be7023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 009/106] fix: names may not start with a digit, full stop or
 hyphen

---
 include/DOM/Simple/NodeImpl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 5ef240a..e158f99 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -213,6 +213,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
+      if(XML::is_name_char(*i) && !XML::is_letter(*i) && *i != '_' && *i != ':')
+	throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
       for( ; i != ie; ++i)
 	if(!XML::is_name_char(*i))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
-- 
2.43.0


From fc5226ebb0ba046d57bce4e5fb687f6e527b5036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 010/106] fix: createDocument does not leak when the qualified
 name is refused

---
 include/DOM/Simple/DOMImplementation.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/DOMImplementation.hpp b/include/DOM/Simple/DOMImplementation.hpp
index 39d557c..4d84758 100644
--- a/include/DOM/Simple/DOMImplementation.hpp
+++ b/include/DOM/Simple/DOMImplementation.hpp
@@ -70,7 +70,15 @@ class DOMImplementationImpl : public DOM::DOMImplementation_impl<stringT, string
       DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, docType, this);
 
       if(!string_adaptorT::empty(qualifiedName))
-        doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
+        try
+        {
+          doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
+        }
+        catch(...)
+        {
+          delete doc;
+          throw;
+        } // try
 
       return doc;
     } // createDocument
-- 
2.43.0


From 39b8132bb28d526248f78bfa96c04727533b9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 011/106] fix: TreeWalker traverses the logical view DOM
 Traversal defines

---
 include/DOM/Traversal/TreeWalkerImpl.hpp | 267 +++++++++--------------
 1 file changed, 98 insertions(+), 169 deletions(-)

diff --git a/include/DOM/Traversal/TreeWalkerImpl.hpp b/include/DOM/Traversal/TreeWalkerImpl.hpp
index 79226a0..9e78e37 100644
--- a/include/DOM/Traversal/TreeWalkerImpl.hpp
+++ b/include/DOM/Traversal/TreeWalkerImpl.hpp
@@ -57,89 +57,71 @@ public:
 
   node_t parentNode()
   {
-    node_t n = getParentNodeImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
+    for(node_t n = currentNode_; n != 0 && n != root_; )
+    {
+      n = n.getParentNode();
+      if(n != 0 && acceptNode(n) == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
+    }
+    return empty_node();
   }
 
-  node_t firstChild()
-  {
-    node_t n = getFirstChildImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t firstChild() { return traverseChildren(true); }
 
-  node_t lastChild()
-  {
-    node_t n = getLastChildImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t lastChild() { return traverseChildren(false); }
 
-  node_t previousSibling()
-  {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t previousSibling() { return traverseSiblings(false); }
 
-  node_t nextSibling()
-  {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
-      currentNode_ = n;
-    return n;
-  }
+  node_t nextSibling() { return traverseSiblings(true); }
 
   node_t previousNode()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
+    node_t n = currentNode_;
+    while(n != 0 && n != root_)
     {
-      node_t last_child = getLastChildImpl(n);
-      currentNode_ = (last_child != 0) ? last_child : n;
-      return currentNode_;
-    }
-    else
-    {
-      n = getParentNodeImpl(n);
-      if(n != 0)
-        currentNode_ = n;
-      return n;
+      node_t sibling = n.getPreviousSibling();
+      while(sibling != 0)
+      {
+        n = sibling;
+        filter_result_t result = acceptNode(n);
+        while(result != filter_t::FILTER_REJECT && child(n, false) != 0)
+        {
+          n = child(n, false);
+          result = acceptNode(n);
+        }
+        if(result == filter_t::FILTER_ACCEPT)
+          return moveTo(n);
+        sibling = n.getPreviousSibling();
+      }
+      n = n.getParentNode();
+      if(n != 0 && acceptNode(n) == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
     }
+    return empty_node();
   }
 
   node_t nextNode()
   {
-    node_t n = getFirstChildImpl(currentNode_);
-    if(n != 0)
-    {
-      currentNode_ = n;
-      return n;
-    }
-
-    n = getNextSiblingImpl(currentNode_);
-    if(n != 0)
+    node_t n = currentNode_;
+    filter_result_t result = filter_t::FILTER_ACCEPT;
+    for(;;)
     {
-      currentNode_ = n;
-      return n;
-    }
-
-    for(node_t parent = getParentNodeImpl(currentNode_); parent != 0; parent = getParentNodeImpl(parent))
-    { 
-      n = getNextSiblingImpl(parent);
-      if(n != 0)
+      while(result != filter_t::FILTER_REJECT && child(n, true) != 0)
       {
-        currentNode_ = n;
-        return n;
+        n = child(n, true);
+        result = acceptNode(n);
+        if(result == filter_t::FILTER_ACCEPT)
+          return moveTo(n);
       }
+      while(n != 0 && n != root_ && n.getNextSibling() == 0)
+        n = n.getParentNode();
+      if(n == 0 || n == root_)
+        return empty_node();
+      n = n.getNextSibling();
+      result = acceptNode(n);
+      if(result == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
     }
-
-    return empty_node();
   }
 
   static const node_t& empty_node()
@@ -149,126 +131,73 @@ public:
   }
 
 protected:
-  node_t getParentNodeImpl(node_t& node)
+  node_t moveTo(const node_t& node)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getParentNode();
-    if (new_node == 0|| new_node == root_) //todo: check for root here?
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else
-      return getParentNodeImpl(new_node);
+    currentNode_ = node;
+    return node;
   }
 
-  node_t getNextSiblingImpl(node_t& node)
+  node_t child(const node_t& node, bool first) const
   {
-    if(node == 0 || node == root_)
+    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
+    return first ? node.getFirstChild() : node.getLastChild();
+  }
 
-    node_t new_node = node.getNextSibling();
-    if (new_node == 0)
-    {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getNextSiblingImpl(new_node);
-      else
-        return empty_node();
-    }
+  static node_t sibling(const node_t& node, bool next)
+  {
+    return next ? node.getNextSibling() : node.getPreviousSibling();
+  }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
+  // a skipped node is replaced by its children, a rejected one hides them too
+  node_t traverseChildren(bool forward)
+  {
+    node_t n = child(currentNode_, forward);
+    while(n != 0)
     {
-      node_t child = getFirstChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getNextSiblingImpl(new_node);
-      else
-        return child;
+      filter_result_t result = acceptNode(n);
+      if(result == filter_t::FILTER_ACCEPT)
+        return moveTo(n);
+      if(result == filter_t::FILTER_SKIP && child(n, forward) != 0)
+      {
+        n = child(n, forward);
+        continue;
+      }
+      while(n != 0 && sibling(n, forward) == 0)
+      {
+        n = n.getParentNode();
+        if(n == root_ || n == currentNode_)
+          return empty_node();
+      }
+      if(n != 0)
+        n = sibling(n, forward);
     }
-    else
-      return getNextSiblingImpl(new_node);
+    return empty_node();
   }
-  
-  node_t getPreviousSiblingImpl(node_t& node)
-  {
-    if(node == 0 || node == root_)
-      return empty_node();
 
-    node_t new_node = node.getPreviousSibling();
-    if (new_node == 0)
+  node_t traverseSiblings(bool forward)
+  {
+    node_t n = currentNode_;
+    while(n != 0 && n != root_)
     {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-     
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getPreviousSiblingImpl(new_node);
-      else
+      node_t s = sibling(n, forward);
+      while(s != 0)
+      {
+        n = s;
+        filter_result_t result = acceptNode(n);
+        if(result == filter_t::FILTER_ACCEPT)
+          return moveTo(n);
+        s = (result == filter_t::FILTER_REJECT) ? empty_node() : child(n, forward);
+        if(s == 0)
+          s = sibling(n, forward);
+      }
+      n = n.getParentNode();
+      if(n == 0 || n == root_ || acceptNode(n) == filter_t::FILTER_ACCEPT)
         return empty_node();
     }
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
-    {
-      node_t child = getLastChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getPreviousSiblingImpl(new_node);
-      else
-        return child;
-    }
-    else
-      return getPreviousSiblingImpl(new_node);
-  }
-
-  node_t getFirstChildImpl(node_t& node)
-  {
-    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
-      return empty_node();
-
-    node_t new_node = node.getFirstChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getFirstChildImpl(new_node);
-    else
-      return getNextSiblingImpl(new_node);
+    return empty_node();
   }
 
-  node_t getLastChildImpl(node_t& node)
-  {
-    if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
-      return empty_node();
-
-    node_t new_node = node.getLastChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getLastChildImpl(new_node);
-    else
-      return getPreviousSiblingImpl(new_node);
-  }
-  
   //node-filter will only be checked if what-to-show succeeds
   filter_result_t acceptNode(node_t const& node)
   {
-- 
2.43.0


From 8424007d821c977ee23c69dc7110bc144ee4f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 012/106] fix: DOM serialisation declares exactly the
 namespaces its names need

---
 include/DOM/io/Stream.hpp | 73 +++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index ace6cf9..3eed9a1 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -43,19 +43,45 @@ void prefix_mapper_callback(std::ios_base::event ev, std::ios_base& stream, int
     delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
 } // boing_callback
 
-template<class stringT>
-std::pair<bool, stringT> is_uri_declared(std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& namespaceURI)
+// each entry maps the prefixes declared on one element to their namespace URI
+template<class stringT, class string_adaptorT>
+stringT lookup_prefix(const std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& prefix)
 {
-  stringT declared_prefix;
-  for(typename std::vector<std::map<stringT, stringT> >::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
+  if(prefix == string_adaptorT::construct_from_utf8("xml"))
+    return string_adaptorT::construct_from_utf8("http://www.w3.org/XML/1998/namespace");
+
+  for(typename std::vector<std::map<stringT, stringT> >::const_reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
         b != e;
         ++b)
   {
-    typename std::map<stringT, stringT>::const_iterator p = b->find(namespaceURI);
+    typename std::map<stringT, stringT>::const_iterator p = b->find(prefix);
     if(p != b->end())
-      return std::make_pair(true, p->second);
+      return p->second;
   } // for ...
 
+  return stringT();
+} // lookup_prefix
+
+// finds a prefix which is bound to namespaceURI here, ie not redeclared further in
+template<class stringT, class string_adaptorT>
+std::pair<bool, stringT> is_uri_declared(const std::vector<std::map<stringT, stringT> >* prefix_stack, 
+                                         const stringT& namespaceURI, 
+                                         const stringT& preferred,
+                                         const bool is_attribute)
+{
+  if(!(is_attribute && string_adaptorT::empty(preferred)) &&
+     (lookup_prefix<stringT, string_adaptorT>(prefix_stack, preferred) == namespaceURI))
+    return std::make_pair(true, preferred);
+
+  for(typename std::vector<std::map<stringT, stringT> >::const_reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
+        b != e;
+        ++b)
+    for(typename std::map<stringT, stringT>::const_iterator p = b->begin(), pe = b->end(); p != pe; ++p)
+      if((p->second == namespaceURI) &&
+         !(is_attribute && string_adaptorT::empty(p->first)) &&
+         (lookup_prefix<stringT, string_adaptorT>(prefix_stack, p->first) == namespaceURI))
+        return std::make_pair(true, p->first);
+
   return std::make_pair(false, stringT());
 } // is_uri_declared
 
@@ -71,17 +97,20 @@ void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream,
   stringT namespaceURI = node.getNamespaceURI();
   if(!string_adaptorT::empty(namespaceURI))
   {
-    std::pair<bool, stringT> prefix = is_uri_declared(prefix_stack, namespaceURI);
+    std::pair<bool, stringT> prefix = is_uri_declared<stringT, string_adaptorT>(prefix_stack, namespaceURI, node.getPrefix(), is_attribute);
     
     if(!prefix.first)
     {
-      current[namespaceURI] = prefix.second = node.getPrefix();
-      if(is_attribute && string_adaptorT::empty(prefix.second))
+      prefix.second = node.getPrefix();
+      while((is_attribute && string_adaptorT::empty(prefix.second)) ||
+            (prefix.second == string_adaptorT::construct_from_utf8("xml")) ||
+            (current.find(prefix.second) != current.end()))
       {
 	std::ostringstream os;
 	os << 'a' << stream.iword(index)++;
-	current[namespaceURI] = prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
-      } // if ...
+	prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
+      } // while ...
+      current[prefix.second] = namespaceURI;
     } // if ...
 
     if(!string_adaptorT::empty(prefix.second))
@@ -89,7 +118,12 @@ void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream,
     stream << node.getLocalName();
   }
   else
+  {
+    // undo any default namespace in force
+    if(!is_attribute && !string_adaptorT::empty(lookup_prefix<stringT, string_adaptorT>(prefix_stack, stringT())))
+      current[stringT()] = stringT();
     stream << node.getNodeName();
+  } // if ...
 } // check_and_output_node_name
 
 template<class stringT, class string_adaptorT, class charT>
@@ -145,14 +179,9 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
 
     std::map<stringT, stringT> prefixes;
     for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode(); 
-        p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
+        p != 0 && p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
         p = p.getParentNode())
-    {
-      if(string_adaptorT::empty(p.getNamespaceURI()))
-        continue;
-      if(prefixes.find(p.getNamespaceURI()) == prefixes.end())
-        prefixes[p.getNamespaceURI()] = p.getPrefix();
-    } // for ...
+      prefixes.insert(std::make_pair(p.getPrefix(), p.getNamespaceURI()));
 
     prefix_stack->push_back(prefixes);
   } // if ...
@@ -198,11 +227,11 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
            << UnicodeT::LOWERCASE_L
            << UnicodeT::LOWERCASE_N
            << UnicodeT::LOWERCASE_S;
-    if(!(string_adaptorT::empty(i->second)))
-      stream << UnicodeT::COLON << i->second;
+    if(!(string_adaptorT::empty(i->first)))
+      stream << UnicodeT::COLON << i->first;
     stream << UnicodeT::EQUALS_SIGN << UnicodeT::QUOTATION_MARK;
-    std::for_each(string_adaptorT::begin(i->first), 
-                  string_adaptorT::end(i->first), 
+    std::for_each(string_adaptorT::begin(i->second), 
+                  string_adaptorT::end(i->second), 
                   Arabica::XML::attribute_escaper<charT, traitsT>(stream));
     stream << UnicodeT::QUOTATION_MARK;
   } // for ...
-- 
2.43.0


From ba8b232d273d6871a26704c78cb8fd926c77a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 013/106] fix: DOM serialisation splits CDATA containing
 several ]]> correctly

---
 include/DOM/io/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index 3eed9a1..063a565 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -340,7 +340,7 @@ void streamCDATA(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<str
     do
     {
       breakAt += 2;
-      stream << string_adaptorT::substr(value, start, breakAt);
+      stream << string_adaptorT::substr(value, start, breakAt - start);
       StreamImpl::endCDATA(stream);
       start = breakAt;
       StreamImpl::startCDATA(stream);
-- 
2.43.0


From 1d4eed3fdc70f5e3cc2746bc879ea9c4d70cfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 014/106] fix: carriage returns in text are written as
 character references

---
 include/XML/escaper.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/XML/escaper.hpp b/include/XML/escaper.hpp
index 0bc054f..2e8a49d 100644
--- a/include/XML/escaper.hpp
+++ b/include/XML/escaper.hpp
@@ -45,6 +45,15 @@ class text_escaper
                 << UnicodeT::SEMI_COLON;
 	      return;
       } // if(ch == case UnicodeT::AMPERSAND)
+      if(ch == UnicodeT::CARRIAGE_RETURN) // would be read back as a line feed
+      {
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
 
       stream_ << ch;
     } // operator()
-- 
2.43.0


From d1df29ff51f0adba1e97169118f7f76b9f96ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 015/106] fix: DOM serialisation never gives an attribute the
 default namespace's prefix

---
 include/DOM/io/Stream.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index 063a565..467a502 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -66,12 +66,10 @@ stringT lookup_prefix(const std::vector<std::map<stringT, stringT> >* prefix_sta
 template<class stringT, class string_adaptorT>
 std::pair<bool, stringT> is_uri_declared(const std::vector<std::map<stringT, stringT> >* prefix_stack, 
                                          const stringT& namespaceURI, 
-                                         const stringT& preferred,
                                          const bool is_attribute)
 {
-  if(!(is_attribute && string_adaptorT::empty(preferred)) &&
-     (lookup_prefix<stringT, string_adaptorT>(prefix_stack, preferred) == namespaceURI))
-    return std::make_pair(true, preferred);
+  if(namespaceURI == string_adaptorT::construct_from_utf8("http://www.w3.org/XML/1998/namespace"))
+    return std::make_pair(true, string_adaptorT::construct_from_utf8("xml"));
 
   for(typename std::vector<std::map<stringT, stringT> >::const_reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
         b != e;
@@ -97,11 +95,13 @@ void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream,
   stringT namespaceURI = node.getNamespaceURI();
   if(!string_adaptorT::empty(namespaceURI))
   {
-    std::pair<bool, stringT> prefix = is_uri_declared<stringT, string_adaptorT>(prefix_stack, namespaceURI, node.getPrefix(), is_attribute);
+    std::pair<bool, stringT> prefix = is_uri_declared<stringT, string_adaptorT>(prefix_stack, namespaceURI, is_attribute);
     
     if(!prefix.first)
     {
-      prefix.second = node.getPrefix();
+      // attributes can't use the default namespace, so they get a generated prefix if that's where the URI is bound
+      if(!(is_attribute && (lookup_prefix<stringT, string_adaptorT>(prefix_stack, stringT()) == namespaceURI)))
+        prefix.second = node.getPrefix();
       while((is_attribute && string_adaptorT::empty(prefix.second)) ||
             (prefix.second == string_adaptorT::construct_from_utf8("xml")) ||
             (current.find(prefix.second) != current.end()))
-- 
2.43.0


From 9dc2690d03bea73dacc02d23be359231397e246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 016/106] fix: empty attribute value templates, including
 namespace="", are honoured

---
 include/XSLT/impl/handler/xslt_attribute_handler.hpp | 2 +-
 include/XSLT/impl/handler/xslt_element_handler.hpp   | 2 +-
 include/XSLT/impl/handler/xslt_value_validation.hpp  | 5 +++--
 include/XSLT/impl/xslt_compilation_context.hpp       | 7 ++++++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_attribute_handler.hpp b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
index d6621fa..c1bd36d 100644
--- a/include/XSLT/impl/handler/xslt_attribute_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
@@ -35,7 +35,7 @@ protected:
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> name = 
                          baseT::context().xpath_attribute_value_template(attrs[SC::name]);
 
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Attribute<string_type, string_adaptor>(name, baseT::context().inScopeNamespaces());
 
     return new Attribute<string_type, string_adaptor>(name, baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]));
diff --git a/include/XSLT/impl/handler/xslt_element_handler.hpp b/include/XSLT/impl/handler/xslt_element_handler.hpp
index 08a7aad..535e244 100644
--- a/include/XSLT/impl/handler/xslt_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_element_handler.hpp
@@ -39,7 +39,7 @@ protected:
     if(attrs[SC::use_attribute_sets] != string_adaptor::empty_string())
       throw SAX::SAXException("don't understand use-attribute-sets yet");
     
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Element<string_type, string_adaptor>(name, 
                          baseT::context().inScopeNamespaces(),
                          attrs[SC::use_attribute_sets]);
diff --git a/include/XSLT/impl/handler/xslt_value_validation.hpp b/include/XSLT/impl/handler/xslt_value_validation.hpp
index d294766..71571d5 100644
--- a/include/XSLT/impl/handler/xslt_value_validation.hpp
+++ b/include/XSLT/impl/handler/xslt_value_validation.hpp
@@ -159,10 +159,11 @@ public:
       const string_type& uri = atts.getURI(a);
       const string_type& value = atts.getValue(a);
 
-      results[name] = value;
-
       if(uri == string_adaptor::empty_string())
+      {
+        results[name] = value;
         validateAttribute(parentElement, name, value);
+      } // if ...
       else if(uri == SC::xml_uri)
         validateXmlAttribute(parentElement, name, value); // special xml: attributes
     } // for ...
diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 51ff879..b881fd1 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -85,7 +85,12 @@ public:
     return xpath_match(match);
   } // xpath_match_no_variables
 
-  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const { return xpath_.compile_attribute_value_template(expr); } 
+  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const 
+  { 
+    if(string_adaptor::empty(expr)) // the empty string isn't an XPath, but is a perfectly good template
+      return XPathExpressionPtrT(new Arabica::XPath::StringValue<string_type, string_adaptor>(expr));
+    return xpath_.compile_attribute_value_template(expr); 
+  } // xpath_attribute_value_template
   CompiledStylesheetT& stylesheet() const { return stylesheet_; }
 
   QualifiedNameT processElementQName(const string_type& qName) const
-- 
2.43.0


From af74da4b414f3b6b1c5734696446b54e61d1e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 017/106] fix: XSLT output binds each prefix it writes to the
 right namespace

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 100 +++++++++++++--------
 include/XSLT/impl/xslt_output.hpp          |  77 +++++++++-------
 2 files changed, 108 insertions(+), 69 deletions(-)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..46c732d 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -18,74 +18,96 @@ class NamespaceStack
 public:
   typedef std::map<string_type, string_type> Scope;
 
-  NamespaceStack() :
-    autoNs_(1)
+  NamespaceStack()
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    reset();
   } // NamespaceStack
 
+  void reset()
+  {
+    scopes_.assign(1, Scope());
+    autoNs_ = 1;
+  } // reset
+
   void pushScope()
   {
-    prefixStack_.push_back(Scope());
-    uriStack_.push_back(Scope());
+    scopes_.push_back(Scope());
   } // pushScope
 
   void popScope()
   {
-    prefixStack_.pop_back();
-    uriStack_.pop_back();
+    scopes_.pop_back();
   } // popScope
 
-  void declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
+  // makes sure namespaceURI is bound in the current scope, and returns the prefix it's bound to
+  string_type declareNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr = false)
   {
-    if(findPrefix(namespaceURI) != EMPTY_STRING)
-      return;
+    if(string_adaptor::empty(namespaceURI))
+    {
+      if(!attr && !string_adaptor::empty(findURI(EMPTY_STRING)))
+        scopes_.back()[EMPTY_STRING] = EMPTY_STRING;
+      return EMPTY_STRING;
+    } // if ...
 
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || (given_prefix == SC::xmlns);
+    if(namespaceURI == SC::xml_uri)
+      return SC::xml;
 
-    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
+    if(findURI(given_prefix) == namespaceURI && !(attr && string_adaptor::empty(given_prefix)))
+      return given_prefix;
+
+    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
+      for(typename Scope::const_iterator i = ss->begin(), e = ss->end(); i != e; ++i)
+        if(i->second == namespaceURI && !string_adaptor::empty(i->first) && findURI(i->first) == namespaceURI)
+          return i->first;
+
+    bool remap = (attr && string_adaptor::empty(given_prefix)) || 
+                 (given_prefix == SC::xmlns) || 
+                 (given_prefix == SC::xml) ||
+                 (scopes_.back().find(given_prefix) != scopes_.back().end());
 
-    prefixStack_.back()[prefix] = namespaceURI;
-    uriStack_.back()[namespaceURI] = prefix;
+    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
+    scopes_.back()[prefix] = namespaceURI;
+    return prefix;
   } // declareNamespace
 
-  const string_type& findURI(const string_type& prefix) const
+  // adds a declaration to the current scope, provided the prefix isn't already spoken for
+  void addNamespace(const string_type& prefix, const string_type& namespaceURI)
   {
-    return searchStack(prefixStack_, prefix);
-  } // findURI
+    if(findURI(prefix) != namespaceURI)
+      scopes_.back().insert(std::make_pair(prefix, namespaceURI));
+  } // addNamespace
 
-  const string_type& findPrefix(const string_type& uri) const
+  const string_type& findURI(const string_type& prefix) const
   {
-    return searchStack(uriStack_, uri);
-  } // findPrefix
+    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
+    {
+      typename Scope::const_iterator i = ss->find(prefix);
+      if(i != ss->end())
+        return i->second;
+    } // for ...
+    return EMPTY_STRING;
+  } // findURI
 
-  typename Scope::const_iterator begin() { return prefixStack_.back().begin(); }
-  typename Scope::const_iterator end() { return prefixStack_.back().end(); }
+  typename Scope::const_iterator begin() const { return scopes_.back().begin(); }
+  typename Scope::const_iterator end() const { return scopes_.back().end(); }
 
 private:
   typedef std::vector<Scope> ScopeStack;
 
-  const string_type& searchStack(const ScopeStack& stack, const string_type& key) const
-  {
-    for(typename ScopeStack::const_reverse_iterator ss = stack.rbegin(), se = stack.rend(); ss != se; ss++)
-    {      
-      typename Scope::const_iterator i = ss->find(key);
-      if(i != ss->end())
-        return i->second;
-    }
-    return EMPTY_STRING;
-  } // searchStack
-
   string_type autoNamespacePrefix()
   {
-    std::basic_ostringstream<typename string_adaptor::value_type> ss;
-    ss << SC::auto_ns << autoNs_++;
-    return string_adaptor::construct(ss.str());
+    string_type prefix;
+    do
+    {
+      std::basic_ostringstream<typename string_adaptor::value_type> ss;
+      ss << SC::auto_ns << autoNs_++;
+      prefix = string_adaptor::construct(ss.str());
+    } 
+    while(!string_adaptor::empty(findURI(prefix)));
+    return prefix;
   } // autoNamespacePrefix
 
-  ScopeStack prefixStack_;
-  ScopeStack uriStack_;
+  ScopeStack scopes_;
   string_type EMPTY_STRING;
   unsigned int autoNs_;
 }; // class NamespaceStack
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f692d80..f3c1345 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -39,8 +39,16 @@ public:
   {
     typename Settings::const_iterator method = settings.find(SC::method);
     text_mode_ = (method != settings.end() && method->second == SC::text);
-    if(text_mode_)
-      do_disableOutputEscaping(true);
+    do_disableOutputEscaping(text_mode_);
+
+    // forget anything an earlier, abandoned, document left behind
+    buffering_ = 0;
+    pending_element_ = false;
+    pending_text_ = false;
+    pending_attribute_ = -1;
+    element_stack_ = std::stack<QName<string_type, string_adaptor> >();
+    namespaceStack_.reset();
+    atts_.clear();
 
     cdataElements_ = cdataElements;
     do_start_document(settings);
@@ -48,6 +56,7 @@ public:
 
   void end_document()
   {
+    flush_current();
     do_end_document();
   } // end_document
 
@@ -65,17 +74,13 @@ public:
     flush_current();
 
     namespaceStack_.pushScope();
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI);
 
     element_stack_.push(QName<string_type, string_adaptor>(mapped_prefix, localName, namespaceURI));
 
     atts_.clear();
     pending_element_ = true;
 
-    namespaceStack_.pushScope();
     return true;
   } // start_element
 
@@ -85,7 +90,7 @@ public:
     end_element(en.prefix, en.localName, en.namespaceURI);
   } // end_element
 
-  void end_element(const string_type& /* prefix */, const string_type& localName, const string_type& namespaceURI)
+  void end_element(const string_type& /* prefix */, const string_type& /* localName */, const string_type& /* namespaceURI */)
   {
     if(pop_if_buffering())
       return;
@@ -93,12 +98,9 @@ public:
     flush_current();
 
     if(!text_mode_)
-    {
-      string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
-      do_end_element((!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName, namespaceURI);
-      element_stack_.pop();
-    } // end_element
+      do_end_element(element_stack_.top().qname, element_stack_.top().namespaceURI);
 
+    element_stack_.pop();
     namespaceStack_.popScope();
   } // end_element
 
@@ -127,10 +129,13 @@ public:
       return;
     } // if ...
 
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI, true);
+    if(string_adaptor::empty(namespaceURI) && localName == SC::xmlns)
+    {
+      warning(string_adaptor::construct_from_utf8("WARNING: Cannot write attribute called xmlns"));
+      return;
+    } // if ...
 
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type mapped_prefix = namespaceStack_.declareNamespace(prefix, namespaceURI, true);
     string_type qName = (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName;
 
     atts_.addOrReplaceAttribute(namespaceURI,
@@ -138,7 +143,7 @@ public:
                                 qName,
                                 string_adaptor::empty_string(),
                                 string_adaptor::empty_string());
-    pending_attribute_ = atts_.getIndex(qName);
+    pending_attribute_ = atts_.getIndex(namespaceURI, localName);
   } // start_attribute
 
   void end_attribute()
@@ -159,13 +164,20 @@ public:
 		                 const string_type& qName,
 		                 const string_type& value) 
   {
-    if(!pending_element_)
-    {  
-      warning(string_adaptor::construct_from_utf8("WARNING: Cannot write attribute, no open element"));
+    string_type prefix;
+    size_t colon = string_adaptor::find(qName, SC::COLON);
+    if(colon != string_adaptor::npos())
+      prefix = string_adaptor::substr(qName, 0, colon);
+
+    if(prefix == SC::xmlns || qName == SC::xmlns)
+    {
+      add_namespace((prefix == SC::xmlns) ? string_adaptor::substr(qName, colon+1) : string_adaptor::empty_string(), value);
       return;
     } // if ...
 
-    atts_.addAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
+    start_attribute(prefix, !string_adaptor::empty(localName) ? localName : qName, uri);
+    characters(value);
+    end_attribute();
   } // add_attribute
 
   void characters(const string_type& ch)
@@ -332,13 +344,12 @@ private:
       return;
 
     if(text_mode_)
+    {
+      pending_element_ = false;
       return;
+    } // if ...
 
-    bool want_decs = want_namespace_declarations();
-    if(want_decs)
-      addNamespaceDeclarations();
-    namespaceStack_.popScope();
-    if(want_decs)
+    if(want_namespace_declarations())
       addNamespaceDeclarations();
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
@@ -347,19 +358,25 @@ private:
 
   bool isCDATA()
   {
-    if(element_stack_.empty())
+    if(text_mode_ || element_stack_.empty())
       return false;
     QName<string_type, string_adaptor> currentElement = element_stack_.top();
     return cdataElements_.find(currentElement) != cdataElements_.end();
   } // isCDATA
 
+  void add_namespace(const string_type& prefix, const string_type& uri)
+  {
+    if(buffering_ || !pending_element_ || string_adaptor::empty(uri) || prefix == SC::xml)
+      return;
+    if(string_adaptor::empty(prefix) && string_adaptor::empty(element_stack_.top().namespaceURI))
+      return;
+    namespaceStack_.addNamespace(prefix, uri);
+  } // add_namespace
+
   void addNamespaceDeclarations()
   {
     for(typename NamespaceStack<string_type, string_adaptor>::Scope::const_iterator n = namespaceStack_.begin(), ne = namespaceStack_.end(); n != ne; ++n)
     {
-      if(n->first == SC::xml)
-        continue;
-
       string_type qName = (string_adaptor::empty(n->first)) ? SC::xmlns : string_adaptor::concat(SC::xmlns_colon, n->first);
       atts_.addAttribute(SC::xmlns_uri,
                          n->first,
-- 
2.43.0


From e3446842e4664f715d4f82ea83757d0ea8634f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 018/106] fix: XSLT output splits CDATA sections correctly and
 keeps the doctype

---
 include/XSLT/impl/xslt_sink.hpp | 60 ++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6cf42ab..69303d4 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -89,7 +89,9 @@ public:
     stream_(stream),
     disable_output_escaping_(false),
     in_cdata_(false),
+    cdata_brackets_(0),
     empty_(false),
+    seen_decl_(true),
     seen_root_(true),
     indent_(-1),
     out_again_(false)
@@ -100,7 +102,9 @@ public:
     stream_(rhs.stream_),
     disable_output_escaping_(rhs.disable_output_escaping_),
     in_cdata_(rhs.in_cdata_),
+    cdata_brackets_(rhs.cdata_brackets_),
     empty_(false),
+    seen_decl_(rhs.seen_decl_),
     seen_root_(rhs.seen_root_),
     indent_(rhs.indent_),
     out_again_(rhs.out_again_),
@@ -124,10 +128,13 @@ protected:
 
   void do_start_document(const Settings& settings)
   {
+    seen_decl_ = false;
     seen_root_ = false;
+    in_cdata_ = false;
+    empty_ = false;
+    out_again_ = false;
     settings_ = settings;
-    if(setting(SC::indent) == SC::yes)
-      indent_ = 0;
+    indent_ = (setting(SC::indent) == SC::yes) ? 0 : -1;
   } // do_start_document
 
   void do_end_document()
@@ -182,25 +189,18 @@ protected:
       std::for_each(string_adaptor::begin(ch), string_adaptor::end(ch), Arabica::XML::text_escaper<typename string_adaptor::value_type>(stream_));
     else if(in_cdata_) 
     {
-      size_t breakAt = string_adaptor::find(ch, SC::CDATAEnd);
-      if(breakAt == string_adaptor::npos())
+      // ]]> has to be split over two sections
+      for(typename string_adaptor::const_iterator c = string_adaptor::begin(ch), ce = string_adaptor::end(ch); c != ce; ++c)
       {
-        stream_ << ch;
-        return;
-      }
-      size_t start = 0;
-      do
-      {
-        breakAt += 2;
-        stream_ << string_adaptor::substr(ch, start, breakAt);
-        do_end_CDATA();
-        start = breakAt;
-        do_start_CDATA();
-        breakAt = string_adaptor::find(ch, SC::CDATAEnd, breakAt);
-      }
-      while(breakAt != string_adaptor::npos());
-      stream_ << string_adaptor::substr(ch, start);
-    }
+        if(cdata_brackets_ >= 2 && *c == SC::GREATER_THAN_SIGN)
+        {
+          do_end_CDATA();
+          do_start_CDATA();
+        } // if ...
+        cdata_brackets_ = (*c == SC::RIGHT_SQUARE_BRACKET) ? cdata_brackets_ + 1 : 0;
+        stream_ << *c;
+      } // for ...
+    } // if ...
     else
       stream_ << ch;
   } // characters
@@ -210,6 +210,7 @@ protected:
     close_element_if_empty();
 
     in_cdata_ = true;
+    cdata_brackets_ = 0;
     stream_ << SC::CDATAStart;
   } // do_start_CDATA
 
@@ -293,21 +294,21 @@ private:
  
   void do_decl(const string_type& qName)
   {
-    if((setting(SC::method) == SC::text) || (setting(SC::omit_xml_declaration) == SC::yes))
+    if(setting(SC::method) == SC::text)
       return;
 
+    if(!seen_decl_ && setting(SC::omit_xml_declaration) != SC::yes)
     {
       string_type version = setting(SC::version);
       if(string_adaptor::empty(version))
         version = SC::Version;
       stream_ << "<?xml version=\"" << version << "\""; 
-    }
-    {
       string_type s = setting(SC::standalone);
       if(!string_adaptor::empty(s))
         stream_ << " standalone=\"" << s << "\"";
-    }
-    stream_ << "?>\n";
+      stream_ << "?>\n";
+    } // if ...
+    seen_decl_ = true;
 
     if(!string_adaptor::empty(qName))
     {
@@ -322,8 +323,8 @@ private:
 	else
           stream_ << "  SYSTEM \"" << sys << "\">\n";
       } // if(!sys.empty())
-    }
-    seen_root_ = true;
+      seen_root_ = true;
+    } // if ...
   } // do_decl 
 
   string_type setting(const string_type& name)
@@ -337,7 +338,9 @@ private:
   std::basic_ostream<typename string_adaptor::value_type>& stream_;
   bool disable_output_escaping_;
   bool in_cdata_;
+  int cdata_brackets_;
   bool empty_;
+  bool seen_decl_;
   bool seen_root_;
   int indent_;
   bool out_again_;
@@ -370,6 +373,9 @@ protected:
 
   void do_start_document(const Settings& settings)
   {
+    current_ = documentFrag_;
+    indent_ = -1;
+    out_again_ = false;
     typename Settings::const_iterator i = settings.find(SC::indent);
     if((i != settings.end()) &&
        (i->second == SC::yes))
-- 
2.43.0


From 2dc5b1bd7296938e89067aa869d811cce2c4f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 019/106] fix: warnings raised while building variables have
 somewhere to go

---
 include/XSLT/impl/xslt_execution_context.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 96b48a6..5ef9df4 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -60,6 +60,8 @@ public:
     to_msg_(false)
   {
 		xpathContext_.setVariableResolver(stack_);
+    sink_.set_warning_sink(message_sink_.asOutput());
+    message_sink_.asOutput().set_warning_sink(message_sink_.asOutput());
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
     xpathContext_.setLast(rhs.xpathContext().last());
-- 
2.43.0


From ca4ffd481676b0d12520a82af098d84fadbe5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 020/106] fix: SAX2DOM builds the right tree, with per-element
 IDs and defaults, from documents with a DTD

---
 include/DOM/SAX2DOM/DocumentTypeImpl.hpp |   4 +-
 include/DOM/SAX2DOM/SAX2DOM.hpp          | 103 ++++++++++++++++-------
 include/DOM/Simple/AttrImpl.hpp          |   5 +-
 include/DOM/Simple/AttrMap.hpp           |   3 +
 include/DOM/Simple/DocumentTypeImpl.hpp  |  14 +--
 5 files changed, 86 insertions(+), 43 deletions(-)

diff --git a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
index f6835a6..a50d420 100644
--- a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
+++ b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
@@ -53,9 +53,9 @@ class DocumentType : public Arabica::SimpleDOM::DocumentTypeImpl<stringT, string
       elem->setAttributeNode(attr);
     } // addDefaultAttr
 
-    void addElementId(const stringT& elementName)
+    void addElementId(const stringT& elementName, const stringT& attributeName)
     {
-      BaseDT::addElementId(elementName);
+      BaseDT::addElementId(elementName, attributeName);
     } // addElementId
 }; // class DOMImplementation
 
diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 19152c9..709988f 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -12,6 +12,7 @@
 #include <DOM/DOMException.hpp>
 #include <DOM/SAX2DOM/DocumentTypeImpl.hpp>
 #include <map>
+#include <set>
 #include <SAX/helpers/FeatureNames.hpp>
 #include <SAX/SAXParseException.hpp>
 
@@ -56,6 +57,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
   public:
     Parser() :
         documentType_(0),
+        inCDATA_(false),
+        inDTD_(false),
+        inEntity_(0),
         entityResolver_(0),
         errorHandler_(0)
     { 
@@ -99,6 +103,11 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       DOM::DOMImplementation<stringT, string_adaptorT> di = Arabica::SimpleDOM::DOMImplementation<stringT, string_adaptorT>::getDOMImplementation();
       document_ = di.createDocument(string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), 0);
       currentNode_ = document_;
+      cachedCurrent_ = 0;
+      beforeEntity_ = 0;
+      documentType_ = 0;
+      declaredEntities_.clear();
+      declaredAttributes_.clear();
       inCDATA_ = false;
       inDTD_ = false;
       inEntity_ = 0;
@@ -112,6 +121,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
       parser.setLexicalHandler(*this);
       parser.setDeclHandler(*this);
+      parser.setDTDHandler(*this);
 
       setParserFeatures(parser);
 
@@ -121,7 +131,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       }
       catch(const DOM::DOMException& de)
       {
-        document_ = 0;
+        reset();
 
         if(errorHandler_)
         {
@@ -141,6 +151,11 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     void reset()
     {
       currentNode_ = 0;
+      cachedCurrent_ = 0;
+      beforeEntity_ = 0;
+      documentType_ = 0;
+      declaredEntities_.clear();
+      declaredAttributes_.clear();
       document_ = 0;
     } // reset
 
@@ -158,6 +173,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     DocumentType<stringT, string_adaptorT >* documentType_;
     DOM::Node<stringT, string_adaptorT> currentNode_;
     DOM::Node<stringT, string_adaptorT> cachedCurrent_;
+    DOM::Node<stringT, string_adaptorT> beforeEntity_;
 
     typedef std::map<stringT, bool> Features;
     Features features_;
@@ -167,6 +183,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     int inEntity_;
 
     std::map<stringT, EntityT*> declaredEntities_;
+    std::set<std::pair<stringT, stringT> > declaredAttributes_;
 
     EntityResolverT* entityResolver_;
     ErrorHandlerT* errorHandler_;
@@ -248,7 +265,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void processingInstruction(const stringT& target, const stringT& data)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_)
         return;
 
       currentNode_.appendChild(document_.createProcessingInstruction(target, data));
@@ -290,6 +307,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 			  const stringT& publicId, 
 			  const stringT& systemId)
     {
+      if(currentNode_ == 0)
+        return;
+
       documentType_ = new DocumentType<stringT, string_adaptorT >(name, publicId, systemId);
       document_.insertBefore(documentType_, 0);
       inDTD_ = true;
@@ -297,42 +317,49 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void endDTD()
     {
-      documentType_->setReadOnly(true);
+      if(documentType_)
+        documentType_->setReadOnly(true);
       inDTD_ = false;
     } // endDTD
 
     virtual void startEntity(const stringT& name)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ || this->dtd_pseudo_entity == name)
         return;
 
+      // the replacement text goes straight into the tree
       if(++inEntity_ == 1)
       {
         cachedCurrent_ = currentNode_;
-        currentNode_ = declaredEntities_[name];
-        if(currentNode_ != 0 && currentNode_.hasChildNodes() == true) // already populated
-          currentNode_ = 0;
-      }
+        beforeEntity_ = currentNode_.getLastChild();
+      } // if ...
     } // startEntity
 
     virtual void endEntity(const stringT& name)
     {
-      if(--inEntity_ == 0)
-        currentNode_ = cachedCurrent_;
+      if(currentNode_ == 0 || inDTD_ || this->dtd_pseudo_entity == name)
+        return;
 
-      if(this->dtd_pseudo_entity == name)
+      if(--inEntity_ != 0)
         return;
-	  
-	  const EntityT* declared = declaredEntities_[name];
-	  if(declared != 0 && declared->getLength() != 0)
-	  {
-		for(DOM::Node<stringT, string_adaptorT> child = declared->getFirstChild();
-            child != 0;
-		    child = child.getNextSibling())
-		  currentNode_.appendChild(child.cloneNode(true));
-	  }
-	  else
+
+      DOM::Node<stringT, string_adaptorT> child = (beforeEntity_ != 0) ? beforeEntity_.getNextSibling() : cachedCurrent_.getFirstChild();
+      if(child == 0)
+      {
         currentNode_.appendChild(document_.createEntityReference(name));
+        return;
+      } // if ...
+
+      // now we know what's in it, populate the entity if need be
+      typename std::map<stringT, EntityT*>::const_iterator declared = declaredEntities_.find(name);
+      if(declared == declaredEntities_.end() || declared->second->getLength() != 0)
+        return;
+
+      declared->second->setReadOnly(false);
+      DOM::Node<stringT, string_adaptorT> entity = declared->second;
+      for( ; child != 0; child = child.getNextSibling())
+        entity.appendChild(child.cloneNode(true));
+      declared->second->setReadOnly(true);
     } // endEntity
 
     virtual void startCDATA()
@@ -347,7 +374,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void comment(const stringT& text)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_)
         return;
 
       currentNode_.appendChild(document_.createComment(text));
@@ -370,25 +397,29 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     {
       if(!documentType_)
         return;
+      if(!declaredAttributes_.insert(std::make_pair(elementName, attributeName)).second)
+        return; // the first declaration is the binding one
       if(!string_adaptorT::empty(value))
         documentType_->addDefaultAttr(elementName, attributeName, value);
       if(type == attributeTypes_.id)
-        documentType_->addElementId(attributeName);
+        documentType_->addElementId(elementName, attributeName);
     } // attributeDecl
 
     virtual void internalEntityDecl(const stringT& name, const stringT& value)
     {
-      if(!documentType_)
+      if(!wantEntity(name))
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
+      static const stringT AMPERSAND = string_adaptorT::construct_from_utf8("&");
 
       EntityT* entity = new EntityT(0, name, string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity));
       documentType_->addEntity(entity);
       DOM::Node<stringT, string_adaptorT> n = entity;
 
-      if(string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos())
+      if((string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos()) &&
+         (string_adaptorT::find(value, AMPERSAND) == string_adaptorT::npos()))
       {
         n.appendChild(document_.createTextNode(value));
         return;
@@ -405,7 +436,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
       Arabica::SAX::InputSource<stringT, string_adaptorT> is(ss);
       Arabica::SAX2DOM::Parser<stringT, string_adaptorT> parser;
-      parser.parse(is);       
+      if(!parser.parse(is))
+        return; // it refers to other entities, or isn't well formed on its own
 
       DOM::Document<stringT, string_adaptorT> entityDoc = parser.getDocument();
       DOM::Element<stringT, string_adaptorT> entityElem = entityDoc.getDocumentElement();
@@ -423,7 +455,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_)
+      if(!wantEntity(name))
         return;
       EntityT* entity = new EntityT(0, name, publicId, systemId, string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity)); // we'll populate it later
@@ -434,17 +466,28 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     // DTDHandler
     virtual void notationDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_)
+      if(!documentType_ || documentType_->getNotations()->getNamedItem(name) != 0)
         return;
       documentType_->addNotation(new NotationT(0, name, publicId, systemId));
     } // notationDecl
 
     virtual void unparsedEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId, const stringT& notationName)
     {
-      if(!documentType_)
+      if(!wantEntity(name))
         return;
-      documentType_->addEntity(new EntityT(0, name, publicId, systemId, notationName));
+      EntityT* entity = new EntityT(0, name, publicId, systemId, notationName);
+      declaredEntities_.insert(std::make_pair(name, entity));
+      documentType_->addEntity(entity);
     } // unparsedEntityDecl
+
+  private:
+    bool wantEntity(const stringT& name) const
+    {
+      static const stringT PERCENT = string_adaptorT::construct_from_utf8("%");
+      return documentType_ &&
+             (string_adaptorT::find(name, PERCENT) != 0) && // parameter entities don't feature in the DOM
+             (declaredEntities_.find(name) == declaredEntities_.end());
+    } // wantEntity
 }; // class Parser
 
 } // namespace SAX2DOM
diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index bd0f373..e404983 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -120,10 +120,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       {
         NodeT::ownerDoc_->adopted(this);  // don't have a parent but are owned
         DocumentTypeImpl<stringT, string_adaptorT>* docType = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(NodeT::ownerDoc_->getDoctype());
-        if(!docType || docType->getElementIds()->empty())
-          return;
-        std::vector<stringT>* elemIds = docType->getElementIds();
-        if(std::find(elemIds->begin(), elemIds->end(), *name_) != elemIds->end())
+        if(docType && docType->isElementId(element->getNodeName(), *name_))
           NodeT::ownerDoc_->setElementId(this);
       } // if(ownerDoc_)
     } // setOwnerElement
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 7c41526..1a504df 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -133,6 +133,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return;
       } // if ...
       a->setValue(value);
+      AttrImplT* defaulted = dynamic_cast<AttrImplT*>(NamedNodeMapImplT::getNamedItem(qualifiedName));
+      if(defaulted && !defaulted->getSpecified() && string_adaptorT::empty(defaulted->getLocalName()))
+        NamedNodeMapImplT::removeItem(defaulted);
       NamedNodeMapImplT::setNamedItemNS(a);
       a->setOwnerElement(ownerElement_);
     } // setAttributeNS
diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index 568e2e6..f9662e4 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -3,7 +3,7 @@
 
 #include <DOM/DocumentType.hpp>
 #include <DOM/Simple/NodeImpl.hpp>
-#include <vector>
+#include <set>
 
 namespace Arabica
 {
@@ -124,10 +124,10 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       return &elements_;
     } // getElements
 
-    std::vector<stringT>* getElementIds() 
+    bool isElementId(const stringT& elementName, const stringT& attributeName) const
     {
-      return &IDs_;
-    } // getIDs
+      return IDs_.find(std::make_pair(elementName, attributeName)) != IDs_.end();
+    } // isElementId
 
   protected:
     void addEntity(Arabica::SimpleDOM::EntityImpl<stringT, string_adaptorT>* entity)
@@ -157,9 +157,9 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       elements_.setNamedItem(element);
     } // addElements
 
-    void addElementId(const stringT& elementId)
+    void addElementId(const stringT& elementName, const stringT& attributeName)
     {
-      IDs_.push_back(elementId);
+      IDs_.insert(std::make_pair(elementName, attributeName));
     } // addId
 
   private:
@@ -172,7 +172,7 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
     NamedNodeMapT entities_;
     NamedNodeMapT notations_;
     NamedNodeMapT elements_;
-    std::vector<stringT> IDs_;
+    std::set<std::pair<stringT, stringT> > IDs_;
     unsigned int refCount_;
 }; // class DOMImplementation
 
-- 
2.43.0


From b72a22ff1b1b1dd20898988bf023ab212c761a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 021/106] fix: a DOM handle can be assigned to itself

---
 include/DOM/Proxy.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/DOM/Proxy.hpp b/include/DOM/Proxy.hpp
index 7ed415c..f5b0a51 100644
--- a/include/DOM/Proxy.hpp
+++ b/include/DOM/Proxy.hpp
@@ -53,16 +53,13 @@ class Proxy
   private:
     void setImpl(ImplementationT* const impl)
     {
-      if(impl_)
-      {
-        impl_->releaseRef();
-        impl_ = 0;
-      }
+      // take the new reference before giving up the old - they might be the same thing
       if(impl)
-      {
-        impl_ = impl;
-        impl_->addRef();
-      } // if(impl)
+        impl->addRef();
+      ImplementationT* const old = impl_;
+      impl_ = impl;
+      if(old)
+        old->releaseRef();
     } // setImpl
 
     // the thing that actually does the work!
-- 
2.43.0


From 1f98d020482fe279508eafb71785268a74327e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 022/106] fix: malformed qualified names are refused, comments
 can be cast, and doctypes are safe before they have a document

---
 include/DOM/CharacterData.hpp            |  2 +-
 include/DOM/Comment.hpp                  |  2 +-
 include/DOM/Simple/AttrNSImpl.hpp        |  2 ++
 include/DOM/Simple/DOMImplementation.hpp | 33 +++++++++++++++---------
 include/DOM/Simple/DocumentTypeImpl.hpp  |  7 +++++
 include/DOM/Simple/ElementNSImpl.hpp     |  2 ++
 include/DOM/Simple/Helpers.hpp           | 13 ++++++++++
 7 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/include/DOM/CharacterData.hpp b/include/DOM/CharacterData.hpp
index 02dfd4f..e17af09 100644
--- a/include/DOM/CharacterData.hpp
+++ b/include/DOM/CharacterData.hpp
@@ -30,7 +30,7 @@ class CharacterData : public Node<stringT, string_adaptorT>
 	  if(NodeT::impl_ == 0) // null nodes can always be cast
 		return;
       typename NodeT::Type type = rhs.getNodeType();
-      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE))
+      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE) && (type != NodeT::COMMENT_NODE))
         throw DOMBadCast("CharacterData");
     } // CharacterData
 
diff --git a/include/DOM/Comment.hpp b/include/DOM/Comment.hpp
index b2ec679..55da35a 100644
--- a/include/DOM/Comment.hpp
+++ b/include/DOM/Comment.hpp
@@ -24,7 +24,7 @@ class Comment : public CharacterData<stringT, string_adaptorT>
     Comment() : CharacterData<stringT, string_adaptorT>() { }
     explicit Comment(Comment_impl<stringT, string_adaptorT>* impl) : CharacterData<stringT, string_adaptorT>(dynamic_cast<Comment_impl<stringT, string_adaptorT>*>(impl)) { }
     Comment(const Comment& rhs) : CharacterData<stringT, string_adaptorT>(rhs) { }
-    explicit Comment(const Node<stringT, string_adaptorT>& rhs) : CharacterData<stringT, string_adaptorT>(rhs)  
+    explicit Comment(const Node<stringT, string_adaptorT>& rhs) : CharacterData<stringT, string_adaptorT>(rhs, 0)  
     {
       if(NodeT::impl_ == 0) // null nodes can always be cast
 	return;
diff --git a/include/DOM/Simple/AttrNSImpl.hpp b/include/DOM/Simple/AttrNSImpl.hpp
index 5fae50b..023b228 100644
--- a/include/DOM/Simple/AttrNSImpl.hpp
+++ b/include/DOM/Simple/AttrNSImpl.hpp
@@ -25,6 +25,8 @@ class AttrNSImpl : public AttrImpl<stringT, string_adaptorT>
         prefix_(&ownerDoc->empty_string()),
         hasNamespaceURI_(false)
     { 
+      checkQualifiedName<stringT, string_adaptorT>(qualifiedName);
+
       bool hasPrefix = false;
       stringT const* prefix_for_checking = (&ownerDoc->empty_string());
       size_type index = string_adaptorT::find(qualifiedName, string_adaptorT::construct_from_utf8(":"));
diff --git a/include/DOM/Simple/DOMImplementation.hpp b/include/DOM/Simple/DOMImplementation.hpp
index 4d84758..d71b619 100644
--- a/include/DOM/Simple/DOMImplementation.hpp
+++ b/include/DOM/Simple/DOMImplementation.hpp
@@ -67,18 +67,27 @@ class DOMImplementationImpl : public DOM::DOMImplementation_impl<stringT, string
                                                                          const stringT& qualifiedName,
                                                                          DOM::DocumentType_impl<stringT, string_adaptorT>* docType)
     {
-      DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, docType, this);
-
-      if(!string_adaptorT::empty(qualifiedName))
-        try
-        {
-          doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
-        }
-        catch(...)
-        {
-          delete doc;
-          throw;
-        } // try
+      DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, 0, this);
+
+      try
+      {
+        // check everything before the document takes charge of the document type
+        DOM::Element_impl<stringT, string_adaptorT>* root = 0;
+        if(!string_adaptorT::empty(qualifiedName))
+          root = doc->createElementNS(namespaceURI, qualifiedName);
+        if(docType && docType->getOwnerDocument() != 0)
+          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
+
+        if(docType)
+          doc->appendChild(docType);
+        if(root)
+          doc->appendChild(root);
+      }
+      catch(...)
+      {
+        delete doc;
+        throw;
+      } // try
 
       return doc;
     } // createDocument
diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index f9662e4..c00c489 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -104,6 +104,12 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       return qualifiedName_;
     } // getNodeName
 
+    // a document type might not have an owner document to ask for these
+    virtual const stringT& getNodeValue() const { return empty_; }
+    virtual const stringT& getNamespaceURI() const { return empty_; }
+    virtual const stringT& getPrefix() const { return empty_; }
+    virtual const stringT& getLocalName() const { return empty_; }
+
     DOMNode_implT* cloneNode(bool /*deep*/) const
     { 
       DocumentTypeImpl* clone = new DocumentTypeImpl(qualifiedName_, publicId_, systemId_);
@@ -174,6 +180,7 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
     NamedNodeMapT elements_;
     std::set<std::pair<stringT, stringT> > IDs_;
     unsigned int refCount_;
+    const stringT empty_;
 }; // class DOMImplementation
 
 } // namespace SAX2DOM
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index a431097..42ee451 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -25,6 +25,8 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
         prefix_(&ownerDoc->empty_string()),
         hasNamespaceURI_(false)
     { 
+      checkQualifiedName<stringT, string_adaptorT>(qualifiedName);
+
       bool hasPrefix = false;
       size_type index = string_adaptorT::find(qualifiedName, string_adaptorT::construct_from_utf8(":"));
 
diff --git a/include/DOM/Simple/Helpers.hpp b/include/DOM/Simple/Helpers.hpp
index c0d4c5d..158a432 100644
--- a/include/DOM/Simple/Helpers.hpp
+++ b/include/DOM/Simple/Helpers.hpp
@@ -9,6 +9,19 @@ namespace Arabica
 namespace SimpleDOM
 {
 
+template<class stringT, class string_adaptorT>
+void checkQualifiedName(const stringT& qualifiedName)
+{
+  const stringT colon = string_adaptorT::construct_from_utf8(":");
+  const typename string_adaptorT::size_type index = string_adaptorT::find(qualifiedName, colon);
+  if(index == string_adaptorT::npos())
+    return;
+
+  const stringT localName = string_adaptorT::substr(qualifiedName, index+1);
+  if(index == 0 || string_adaptorT::empty(localName) || string_adaptorT::find(localName, colon) != string_adaptorT::npos())
+    throw DOM::DOMException(DOM::DOMException::NAMESPACE_ERR);
+} // checkQualifiedName
+
 template<class stringT, class string_adaptorT>
 std::pair<bool, stringT> checkPrefixAndNamespace(bool hasPrefix, 
                                                 const stringT& prefix, 
-- 
2.43.0


From 9fc36d7cb4a557c8b2c4a4c9cd08cdf516e37fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 023/106] fix: the entities and notations of a document type
 are read-only

---
 include/DOM/Simple/DocumentTypeImpl.hpp | 10 ++++++++++
 include/DOM/Simple/NodeImpl.hpp         |  5 ++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index c00c489..b126f82 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -125,6 +125,16 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
         NodeT::ownerDoc_->addRef();
     } // setOwnerDocument
 
+    virtual void setReadOnly(bool readOnly)
+    {
+      ChildlessNodeImpl<stringT, string_adaptorT>::setReadOnly(readOnly);
+      // the entities and notations, and all they contain, are as read-only as the doctype
+      for(unsigned int i = 0; i != entities_.getLength(); ++i)
+        dynamic_cast<NodeImpl<stringT, string_adaptorT>*>(entities_.item(i))->setReadOnly(readOnly);
+      for(unsigned int i = 0; i != notations_.getLength(); ++i)
+        dynamic_cast<NodeImpl<stringT, string_adaptorT>*>(notations_.item(i))->setReadOnly(readOnly);
+    } // setReadOnly
+
     NamedNodeMapT* getElements() 
     {
       return &elements_;
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e158f99..3e1c787 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -186,10 +186,9 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
 
     bool getReadOnly() const { return readOnly_; }
 
-    virtual void setReadOnly(bool /*readOnly*/)
+    virtual void setReadOnly(bool readOnly)
     {
-      // Should be readOnly_ = readOnly; ?
-      readOnly_ = true;
+      readOnly_ = readOnly;
       for(NodeImplT* child = getFirst(); child != 0; child = child->getNext())
         child->setReadOnly(readOnly_);
       DOMNamedNodeMap_implT* attrs = getAttributes();
-- 
2.43.0


From 91716f880fed110a94db050f0f3f8f7c7c8839f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 024/106] fix: transcoding covers all of Unicode, refuses
 malformed input and never reads past the end

UTF-8 and UTF-16 conversion dropped or mangled characters outside the BMP and
accepted malformed sequences, UTF-8 to ISO-8859-1 read beyond its input, exact
fit output buffers were refused, and Base64 lost trailing zero bytes and kept
its working state in the (shared) facet.
---
 include/convert/base64codecvt.hpp  |  19 +---
 src/convert/base64codecvt.cpp      | 171 ++++++++++++-----------------
 src/convert/impl/iso88591_utf8.cpp |  75 ++++---------
 src/convert/impl/ucs2_utf16.cpp    |  84 +++++++++++---
 src/convert/impl/ucs2_utf8.cpp     | 109 +++++++++---------
 5 files changed, 225 insertions(+), 233 deletions(-)

diff --git a/include/convert/base64codecvt.hpp b/include/convert/base64codecvt.hpp
index 22c8d7c..2df3b38 100644
--- a/include/convert/base64codecvt.hpp
+++ b/include/convert/base64codecvt.hpp
@@ -58,19 +58,12 @@ private:
   // the state counter, and in some case we need to "pad" the input
   // strings.  I use these helper functions to mungle them
   // together and keep the details neater (or try to anyway)
-  mutable int* state_;
-  mutable const char** from_next_;
-  mutable const char** from_end_;
-  void grabState(std::mbstate_t& state) const;
-  void grabFromNext(const char*& from_next) const { from_next_ = &from_next; }
-  void grabFromEnd(const char*& from_end) const { from_end_ = &from_end; }
-
-  int getState() const;
-  void nextState() const;
-  int getCurrentOutChar() const;
-  void consumeOutChar() const;
-  char getPreviousChar() const;
-  void setPreviousChar(char c) const;
+  int getState(const std::mbstate_t& state) const;
+  void nextState(std::mbstate_t& state) const;
+  bool isPadding(const std::mbstate_t& state) const;
+  void setPadding(std::mbstate_t& state) const;
+  int getPreviousChar(const std::mbstate_t& state) const;
+  void setPreviousChar(std::mbstate_t& state, int c) const;
 }; // class base64codecvt
 
 } // namespace convert
diff --git a/src/convert/base64codecvt.cpp b/src/convert/base64codecvt.cpp
index ea31d92..dc5a3dc 100644
--- a/src/convert/base64codecvt.cpp
+++ b/src/convert/base64codecvt.cpp
@@ -7,7 +7,6 @@
 #include <convert/base64codecvt.hpp>
 
 static const std::string base64_charset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
-static const int NO_MORE = 256;
 
 using namespace Arabica::convert;
 
@@ -20,53 +19,56 @@ std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
                         char*& to_next) const
 {
   // convert to Base64
-  grabState(state);
-  grabFromNext(from_next);
-  grabFromEnd(from_end);
-
-  // base64 encode
   from_next = from;
   to_next = to;
 
   // generate the quad
-  while((to_next != to_limit) && !((getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))) 
+  while((to_next != to_limit) && ((from_next != from_end) || (getState(state) != 0)))
   {
-    char c = getCurrentOutChar();
-    switch(getState())
+    const bool more = (from_next != from_end);
+    const int c = more ? static_cast<unsigned char>(*from_next) : 0;
+    const int p = getPreviousChar(state);
+
+    switch(getState(state))
     {
       case 0:
-        *to_next++ = base64_charset[(c>>2) & 63];
-        consumeOutChar();
+        *to_next++ = base64_charset[c >> 2];
+        setPreviousChar(state, c);
+        ++from_next;
         break;
       case 1:
-        *to_next++ = base64_charset[((getPreviousChar() & 3) << 4) + ((c >> 4) & 15)];
-        consumeOutChar();
+        *to_next++ = base64_charset[((p & 3) << 4) | (c >> 4)];
+        setPreviousChar(state, c);
+        if(more)
+          ++from_next;
+        else
+          setPadding(state);
         break;
       case 2:
-        *to_next++ = base64_charset[((getPreviousChar() & 15) << 2) + ((c >> 6) & 3)];
-        setPreviousChar(0);
+        if(isPadding(state))
+          *to_next++ = '=';
+        else
+        {
+          *to_next++ = base64_charset[((p & 15) << 2) | (c >> 6)];
+          if(!more)
+            setPadding(state);
+        } // if ...
         break;
       case 3:
-        *to_next++ = base64_charset[(c & 63)];
-        consumeOutChar();
-        setPreviousChar(0);
+        if(isPadding(state))
+          *to_next++ = '=';
+        else
+        {
+          *to_next++ = base64_charset[c & 63];
+          ++from_next;
+        } // if ...
         break;
-    } // switch(s) 
-
-    nextState();
-
-    if((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))
-      break;
-  } // while((from_next < from_end) && (to_next != to_end))
+    } // switch(getState(state)) 
 
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
+    nextState(state);
+  } // while ...
 
-  return ((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0)) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  return ((from_next == from_end) && (getState(state) == 0)) ? std::codecvt_base::ok : std::codecvt_base::partial;
 } // do_out
 
 std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
@@ -78,7 +80,6 @@ std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
                        char*& to_next) const
 {
   // decode Base64
-  grabState(state);
   from_next = from;
   to_next = to;
 
@@ -88,29 +89,28 @@ std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
     size_t i = base64_charset.find(b);
     if(i == std::string::npos)
     {
-      if(b == '=')
-        nextState();
+      if((b == '=') && (getState(state) != 0))
+        nextState(state);
       continue;
     }
-    char c = static_cast<char>(i);
-
-    char p = getPreviousChar();
-    switch(getState())
+    int c = static_cast<int>(i);
+    int p = getPreviousChar(state);
+    switch(getState(state))
     {
       case 0:
         break;
       case 1:
-        *to_next++ = (p << 2) | (c >> 4);
+        *to_next++ = static_cast<char>((p << 2) | (c >> 4));
         break;
       case 2:
-        *to_next++ = (p << 4) | (c >> 2);
+        *to_next++ = static_cast<char>((p << 4) | (c >> 2));
         break;
       case 3:
-        *to_next++ = (p << 6) | c;
+        *to_next++ = static_cast<char>((p << 6) | c);
         break;
-    } // switch(getState())
-    setPreviousChar(c);
-    nextState();
+    } // switch(getState(state))
+    setPreviousChar(state, c);
+    nextState(state);
   } // while(to != to_limit)
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial; 
@@ -118,19 +118,12 @@ std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
 
 std::codecvt_base::result base64codecvt::do_unshift(std::mbstate_t& /* state */,
                             char* to,
-                            char* to_limit,
+                            char* /* to_limit */,
                             char*& to_next) const
 {
+  // do_out always completes the quad it is working on
   to_next = to;
-
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
-
-  return (to_next == to_limit) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  return std::codecvt_base::noconv;
 } // do_unshift
 
 int base64codecvt::do_length(const std::mbstate_t&,
@@ -158,63 +151,41 @@ int base64codecvt::do_max_length() const throw()
   return 2;
 } // do_max_length
 
-void base64codecvt::grabState(std::mbstate_t& state) const
-{ 
-  state_ = reinterpret_cast<int*>(&state); 
-  int s = getState();
-  if((s < 0) || (s > 4))
-    *state_ = 0;
-} // grabState
-
-int base64codecvt::getState() const
+// the state is the position in the quad, whether we've started padding it,
+// and the previous character
+int base64codecvt::getState(const std::mbstate_t& state) const
 {
-  return (*state_) & 0xff;
+  return reinterpret_cast<const unsigned char*>(&state)[0] & 3;
 } // getState
 
-void base64codecvt::nextState() const
+void base64codecvt::nextState(std::mbstate_t& state) const
 {
-  int s = getState();
-  s = s + 1;
-  if(s == 4)
-    s = 0;
-
-  *state_ &= 0xffffff00;
-  *state_ |= s;
-} // nextOutState
+  unsigned char* s = reinterpret_cast<unsigned char*>(&state);
+  if(getState(state) == 3)
+    s[0] = 0;
+  else
+    ++s[0];
+} // nextState
 
-int base64codecvt::getCurrentOutChar() const
+bool base64codecvt::isPadding(const std::mbstate_t& state) const
 {
-  if(*from_next_ != *from_end_)
-    return **from_next_;
+  return (reinterpret_cast<const unsigned char*>(&state)[0] & 4) != 0;
+} // isPadding
 
-  return NO_MORE;
-} // getCurrentOutChar
-
-char base64codecvt::getPreviousChar() const
+void base64codecvt::setPadding(std::mbstate_t& state) const
 {
-  return static_cast<char>((*state_ &0xff00) >> 8);
-} // getCurrentOutChar
+  reinterpret_cast<unsigned char*>(&state)[0] |= 4;
+} // setPadding
 
-void base64codecvt::setPreviousChar(char c) const
+int base64codecvt::getPreviousChar(const std::mbstate_t& state) const
 {
-  int bc(c);
-  bc <<= 8;
-  bc &= 0xff00;
-
-  *state_ &= 0xffff00ff;
-  *state_ |= bc;
-} // setPreviousOutChar
+  return reinterpret_cast<const unsigned char*>(&state)[1];
+} // getPreviousChar
 
-void base64codecvt::consumeOutChar() const
+void base64codecvt::setPreviousChar(std::mbstate_t& state, int c) const
 {
-  if(*from_next_ != *from_end_)
-  {
-    setPreviousChar(**from_next_);
-    *from_next_ = *from_next_ + 1;
-  } 
-  else
-    setPreviousChar(0);
-}  // consumeOutChar
+  reinterpret_cast<unsigned char*>(&state)[1] = static_cast<unsigned char>(c);
+} // setPreviousChar
 
 // end of file
 
diff --git a/src/convert/impl/iso88591_utf8.cpp b/src/convert/impl/iso88591_utf8.cpp
index 44277d6..dd269c1 100644
--- a/src/convert/impl/iso88591_utf8.cpp
+++ b/src/convert/impl/iso88591_utf8.cpp
@@ -2,28 +2,11 @@
 // $Id$
 //---------------------------------------------------------------------------
 #include <convert/impl/iso88591_utf8.hpp>
+#include <convert/impl/ucs2_utf8.hpp>
 //---------------------------------------------------------------------------
 // Some of this code is derived from work done by Ken Thompson,
 // provided to the X/Open Group.
 
-namespace {
-  struct Tab
-  {
-    char char_mask;
-    char char_value;
-    int shift;
-    wchar_t wide_mask;
-  };
-
-  static const Tab tab[] =
-  {
-    { char(0x80),  char(0x00),   0*6,    0x7F,   },   // 1 byte sequence
-    { char(0xE0),  char(0xC0),   1*6,    0x7FF,  },   // 2 byte sequence
-    { char(0xF0),  char(0xE0),   2*6,    0xFFFF, },   // 3 byte sequence
-    { 0,           0,            0,      0,      }    // end of table
-  };
-} // namespace 
-
 std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
                         const char* from, const char* from_end, const char*& from_next,
                         char* to, char* to_limit, char*& to_next)
@@ -33,25 +16,19 @@ std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
 
   while(from_next < from_end)
   {
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      unsigned char fn = static_cast<unsigned char>(*from_next);
-      if(fn > t->wide_mask )
-        continue;
+    unsigned char fn = static_cast<unsigned char>(*from_next);
 
-      // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
-        return std::codecvt_base::partial;
+    // is there enough room in outbuffer?
+    if(to_limit - to_next < ((fn < 0x80) ? 1 : 2))
+      return std::codecvt_base::partial;
 
-      int c = t->shift;
-      *to_next++ = static_cast<char>(t->char_value | (fn >> c));
-      while(c > 0)
-      {
-      	c -= 6;
-       	*to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
-      } // while(c > 0)
-      break;
-    } // for(Tab *t = tab;  t->char_mask; t++)
+    if(fn < 0x80)
+      *to_next++ = static_cast<char>(fn);
+    else
+    {
+      *to_next++ = static_cast<char>(0xC0 | (fn >> 6));
+      *to_next++ = static_cast<char>(0x80 | (fn & 0x3F));
+    } // if ...
     ++from_next;
   } // while(from_next < from_end)
 
@@ -65,30 +42,24 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_iso88591(
   from_next = from;
   to_next = to;
 
-	while((from_next < from_end) && (to_next < to_limit))
-	{
-    char start = *from_next;
-    wchar_t next = static_cast<unsigned char>(*from_next);
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      if((start & t->char_mask) == t->char_value)
-      {
-        next &= t->wide_mask;
-        break;
-      }
-      from_next++;
-      next = (next << 6) | ((*from_next ^ 0x80) & 0xff);
-    } // for(Tab *t = tab;  t->char_mask; t++)
+  while((from_next < from_end) && (to_next < to_limit))
+  {
+    // one character at a time, so we know exactly what went where
+    wchar_t next = 0;
+    wchar_t* next_end = &next;
+    const char* char_end = from_next;
+    std::codecvt_base::result r = utf8_2_ucs2(from_next, from_end, char_end, &next, &next + 1, next_end);
+    if(next_end == &next)
+      return r;
 
     if(next <= 0xFF)
       *to_next = static_cast<char>(next);
     else
-      *to_next = '?';  // error state!
+      *to_next = '?';  // no such character
 
-    ++from_next;
+    from_next = char_end;
     ++to_next;
   } // while
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
 } // utf8_2_iso88591
-// end of file
diff --git a/src/convert/impl/ucs2_utf16.cpp b/src/convert/impl/ucs2_utf16.cpp
index ca1e050..a97df6e 100644
--- a/src/convert/impl/ucs2_utf16.cpp
+++ b/src/convert/impl/ucs2_utf16.cpp
@@ -3,6 +3,42 @@
 #include <convert/impl/ucs2_utf16.hpp>
 // --------------------------------------------------------------------------
 
+namespace {
+  bool is_surrogate(unsigned long c)
+  {
+    return (c >= 0xD800) && (c <= 0xDFFF);
+  } // is_surrogate
+
+  bool is_high_surrogate(unsigned long c)
+  {
+    return (c >= 0xD800) && (c <= 0xDBFF);
+  } // is_high_surrogate
+
+  unsigned long code_unit(bool be, char const* bytes)
+  {
+    unsigned long b1 = static_cast<unsigned char>(bytes[0]);
+    unsigned long b2 = static_cast<unsigned char>(bytes[1]);
+    return be ? ((b1 << 8) + b2) : ((b2 << 8) + b1);
+  } // code_unit
+
+  void write_code_unit(bool be, unsigned long ch, char*& to_next)
+  {
+    unsigned char lb = static_cast<unsigned char>(ch & 0xFF);
+    unsigned char hb = static_cast<unsigned char>((ch >> 8) & 0xFF);
+ 
+    if(be)
+    { // big endian
+      *to_next++ = hb;
+      *to_next++ = lb;
+    } 
+    else
+    { // little endian
+      *to_next++ = lb;
+      *to_next++ = hb;
+    }
+  } // write_code_unit
+} // namespace
+
 std::codecvt_base::result Arabica::convert::impl::utf16_2_ucs2(bool be,
                        char const* from, char const* from_end, char const*& from_next,
                        wchar_t* to, wchar_t* to_limit, wchar_t*& to_next)
@@ -12,10 +48,25 @@ std::codecvt_base::result Arabica::convert::impl::utf16_2_ucs2(bool be,
 
   while((from_next+1 < from_end) && (to_next < to_limit))
 	{ 
-    wchar_t b1 = static_cast<unsigned char>(*from_next++);
-    wchar_t b2 = static_cast<unsigned char>(*from_next++);
+    unsigned long ch = code_unit(be, from_next);
+    int length = 2;
 
-    *to_next++ = be ? ((b1 << 8) + b2) : ((b2 << 8) + b1);
+    // characters beyond the BMP are one wchar_t where there's room for them
+    if((sizeof(wchar_t) > 2) && is_surrogate(ch))
+    {
+      if(!is_high_surrogate(ch))
+        return std::codecvt_base::error;
+      if(from_end - from_next < 4)
+        return std::codecvt_base::partial;
+      unsigned long low = code_unit(be, from_next + 2);
+      if(!is_surrogate(low) || is_high_surrogate(low))
+        return std::codecvt_base::error;
+      ch = 0x10000 + ((ch - 0xD800) << 10) + (low - 0xDC00);
+      length = 4;
+    } // if ...
+
+    from_next += length;
+    *to_next++ = static_cast<wchar_t>(ch);
   } // while
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
@@ -30,23 +81,20 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf16(bool be,
 
   while(from_next < from_end)
   {
-    if(to_next + 2 >= to_limit)
+    unsigned long ch = static_cast<unsigned long>(*from_next);
+    if((sizeof(wchar_t) > 2) && ((ch > 0x10FFFF) || is_surrogate(ch)))
+      return std::codecvt_base::error;
+
+    if(to_limit - to_next < ((ch > 0xFFFF) ? 4 : 2))
       return std::codecvt_base::partial;
 
-    wchar_t ch = *from_next;
-    unsigned char lb = static_cast<unsigned char>(ch & 0xFF);
-    unsigned char hb = static_cast<unsigned char>((ch >> 8) & 0xFF);
- 
-    if(be)
-    { // big endian
-      *to_next++ = hb;
-      *to_next++ = lb;
-    } 
-    else
-    { // little endian
-      *to_next++ = lb;
-      *to_next++ = hb;
-    }
+    if(ch > 0xFFFF)
+    {
+      ch -= 0x10000;
+      write_code_unit(be, 0xD800 + (ch >> 10), to_next);
+      ch = 0xDC00 + (ch & 0x3FF);
+    } // if ...
+    write_code_unit(be, ch, to_next);
 
     ++from_next;
   } // while(from_next < from_end)
diff --git a/src/convert/impl/ucs2_utf8.cpp b/src/convert/impl/ucs2_utf8.cpp
index 4b9f5d8..ebd9c93 100644
--- a/src/convert/impl/ucs2_utf8.cpp
+++ b/src/convert/impl/ucs2_utf8.cpp
@@ -10,21 +10,18 @@
 
 
 namespace {
-  struct Tab
+  // smallest character each length of sequence may encode
+  const unsigned long smallest[] = { 0, 0x80, 0x800, 0x10000 };
+
+  bool is_surrogate(unsigned long c)
   {
-    unsigned char char_mask;
-    unsigned char char_value;
-    int shift;
-    unsigned long wide_mask;
-  };
+    return (c >= 0xD800) && (c <= 0xDFFF);
+  } // is_surrogate
 
-  static const Tab tab[] =
+  unsigned long largest()
   {
-    { (unsigned char)(0x80),  (unsigned char)(0x00),   0*6,    0x7F,   },   // 1 byte sequence
-    { (unsigned char)(0xE0),  (unsigned char)(0xC0),   1*6,    0x7FF,  },   // 2 byte sequence
-    { (unsigned char)(0xF0),  (unsigned char)(0xE0),   2*6,    0xFFFF, },   // 3 byte sequence
-    { 0,                      0,                       0,      0,      }    // end of table
-  };
+    return (sizeof(wchar_t) > 2) ? 0x10FFFF : 0xFFFF;
+  } // largest
 } // namespace 
 
 
@@ -37,26 +34,25 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf8(
 
   while(from_next < from_end)
   {
-    unsigned long fn = static_cast<unsigned long >(*from_next);
+    unsigned long fn = static_cast<unsigned long>(*from_next);
+    if((fn > 0x10FFFF) || is_surrogate(fn))
+      return std::codecvt_base::error;
 
-    for(const Tab *t = tab; t->char_mask; t++)
-    {
-      if(fn > t->wide_mask )
-        continue;
+    // how many bytes follow the first?
+    int extra = (fn < 0x80) ? 0 : (fn < 0x800) ? 1 : (fn < 0x10000) ? 2 : 3;
 
-      // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
-        return std::codecvt_base::partial;
+    // is there enough room in outbuffer?
+    if(to_limit - to_next < extra + 1)
+      return std::codecvt_base::partial;
 
-      int c = t->shift;
-      *to_next++ = static_cast<char>(t->char_value | (fn >> c));
-      while(c > 0)
-      {
-      	c -= 6;
-       	*to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
-      } // while(c > 0)
-      break;
-    } // for(Tab *t = tab;  t->char_mask; t++)
+    static const unsigned char lead[] = { 0x00, 0xC0, 0xE0, 0xF0 };
+    int c = extra * 6;
+    *to_next++ = static_cast<char>(lead[extra] | (fn >> c));
+    while(c > 0)
+    {
+      c -= 6;
+      *to_next++ = static_cast<char>(0x80 | ((fn >> c) & 0x3F));
+    } // while(c > 0)
     ++from_next;
   } // while(from_next < from_end)
 
@@ -70,32 +66,45 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_ucs2(
   from_next = from;
   to_next = to;
 
-	while((from_next < from_end) && (to_next < to_limit))
-	{
-    unsigned char start = static_cast<unsigned char>(*from_next);
-
-    const Tab *t = tab;
-    for(; t->char_mask; ++t)
+  while((from_next < from_end) && (to_next < to_limit))
+  {
+    unsigned long c = static_cast<unsigned char>(*from_next);
+    int extra = 0;
+    if(c >= 0xF8)
+      return std::codecvt_base::error;
+    else if(c >= 0xF0)
     {
-      if((start & t->char_mask) == t->char_value)
-        break;
+      extra = 3;
+      c &= 0x07;
     }
-
-    if((from_next + (t - tab)) >= from_end)
-      break;
-
-    unsigned long wide_mask = t->wide_mask;
-
-    *to_next = start;
-    for(; t != tab; --t)
+    else if(c >= 0xE0)
+    {
+      extra = 2;
+      c &= 0x0F;
+    }
+    else if(c >= 0xC0)
     {
-      from_next++;
-      *to_next = (*to_next << 6) | ((*from_next ^ 0x80) & 0xff);
+      extra = 1;
+      c &= 0x1F;
     }
-    *to_next &= wide_mask;
+    else if(c >= 0x80)
+      return std::codecvt_base::error;
 
-    ++from_next;
-    ++to_next;
+    for(int i = 1; i <= extra; ++i)
+    {
+      if(from_next + i == from_end)
+        return std::codecvt_base::partial;
+      unsigned char b = static_cast<unsigned char>(from_next[i]);
+      if((b & 0xC0) != 0x80)
+        return std::codecvt_base::error;
+      c = (c << 6) | (b & 0x3F);
+    } // for ...
+
+    if((c < smallest[extra]) || (c > largest()) || is_surrogate(c))
+      return std::codecvt_base::error;
+
+    from_next += extra + 1;
+    *to_next++ = static_cast<wchar_t>(c);
   } // while
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial;
-- 
2.43.0


From b7bd5f26e8480c2da1afe91b33877332128c790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 025/106] fix: converting streams terminate and deliver
 everything that can be converted

Conversion state was uninitialised, incomplete input looped forever, and the
adaptors lost or corrupted characters at buffer boundaries.
---
 include/io/convert_adaptor.hpp | 133 +++++++++++++++++----------------
 include/io/convertstream.hpp   |  10 ++-
 2 files changed, 76 insertions(+), 67 deletions(-)

diff --git a/include/io/convert_adaptor.hpp b/include/io/convert_adaptor.hpp
index f891a96..21488f9 100644
--- a/include/io/convert_adaptor.hpp
+++ b/include/io/convert_adaptor.hpp
@@ -38,10 +38,10 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
     typedef std::basic_streambuf<externalCharT, externalTraitsT> externalStreambufT;
     typedef std::basic_streambuf<charT, traitsT> streambufT;
 
-    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), inEof_(false) { }
+    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), outState_(), inState_(), inEof_(false), leftOver_(0) { }
     virtual ~convert_bufadaptor() { }
   
-    void set_buffer(externalStreambufT& externalbuf) { externalbuf_ = &externalbuf; inEof_ = false; }
+    void set_buffer(externalStreambufT& externalbuf) { externalbuf_ = &externalbuf; inState_ = state_t(); inEof_ = false; leftOver_ = 0; }
 
   protected:
     virtual int_type overflow(int_type c = traitsT::eof());
@@ -59,6 +59,8 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
     std::vector<charT> inBuffer_;
     state_t inState_;
     bool inEof_;
+    externalCharT from_[1024];
+    std::streamsize leftOver_; // read from the external buffer, but not converted yet
 
     void growOutBuffer();
     bool flushOut();
@@ -120,16 +122,16 @@ typename convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::int
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growOutBuffer()
 {
-  size_t oldsize = outBuffer_.capacity();
+  size_t oldsize = outBuffer_.size();
   size_t newsize = (oldsize ? oldsize*2 : bufferSize_);
   outBuffer_.resize(newsize);
-  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + outBuffer_.capacity());
+  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + outBuffer_.size());
 } // growOutBuffer
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growInBuffer()
 {
-  size_t oldsize = inBuffer_.capacity();
+  size_t oldsize = inBuffer_.size();
   size_t newsize = (oldsize ? oldsize*2 : bufferSize_) + pbSize_;
   inBuffer_.resize(newsize);
 } // growInBuffer
@@ -137,6 +139,8 @@ void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growInB
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOut()
 {
+  if(outBuffer_.empty())
+    return true;
   size_t length = streambufT::pptr() - &outBuffer_[0];
   if(!length)
     return true;
@@ -150,31 +154,42 @@ bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOu
   else
   {
     // we must do code conversion
-    length += cvt.max_length(); // add a little 
-    std::vector<externalCharT> to(length);
+    std::vector<externalCharT> to(length + 8); // add a little
     const charT* from_next = &(outBuffer_[0]);
     std::codecvt_base::result r;
 
     do
     {
+      const charT* const from_start = from_next;
       externalCharT* to_next;
       r = cvt.out(outState_, from_next, streambufT::pptr(), from_next, 
-                  &to[0], &to[0]+length, to_next);
+                  &to[0], &to[0]+to.size(), to_next);
 
       if(r == std::codecvt_base::noconv)
       {
         std::copy(&outBuffer_[0], &outBuffer_[0] + length, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+        from_next = streambufT::pptr();
         break;
       }
       std::copy(&to[0], to_next, std::ostreambuf_iterator<externalCharT>(externalbuf_));
+      if((from_next == from_start) && (to_next == &to[0]))
+        break; // needs more than we have
     }
     while(r == std::codecvt_base::partial);
 
-    ok = ok ? (r != std::codecvt_base::error) : false;
+    ok = (r != std::codecvt_base::error);
+    if(r == std::codecvt_base::partial)
+    {
+      // keep what's incomplete until the rest of it turns up
+      size_t remaining = streambufT::pptr() - from_next;
+      std::copy(from_next, from_next + remaining, outBuffer_.begin());
+      streambufT::setp(&outBuffer_[0] + remaining, &outBuffer_[0] + outBuffer_.size());
+      return true;
+    } // if ...
   } // if(cvt.always_noconv())
  
   if(ok)
-    streambufT::setp(&outBuffer_[0], &outBuffer_[0] + outBuffer_.capacity());
+    streambufT::setp(&outBuffer_[0], &outBuffer_[0] + outBuffer_.size());
 
   return ok;
 } // flushOut
@@ -182,85 +197,73 @@ bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOu
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::readIn()
 {
-  if(!inBuffer_.capacity())
+  if(inBuffer_.empty())
     growInBuffer();
 
   size_t pbCount = std::min<size_t>(streambufT::gptr() - streambufT::eback(), pbSize_);
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT),
-         streambufT::gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  std::copy(streambufT::gptr() - pbCount, streambufT::gptr(), inBuffer_.begin() + (pbSize_ - pbCount));
 
   const std::codecvt<charT, externalCharT, state_t>& cvt =
       std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
 
-  externalCharT from[1024];
-
-  std::streamsize res = 0;
-  if(!inEof_)
-  {
-    external_int_type ec = externalbuf_->sgetc();
-    while((!externalTraitsT::eq_int_type(externalTraitsT::eof(), ec)) && (res != bufferSize_))
-    {
-      from[res++] = static_cast<externalCharT>(ec);
-      ec = externalbuf_->snextc();
-    }
-    inEof_ = (externalTraitsT::eq_int_type(externalTraitsT::eof(), ec));
-  } // if ...
-
   std::streamsize converted = 0;
-  if(res > 0)
+  while(converted == 0)
   {
+    // start with whatever couldn't be converted last time
+    std::streamsize res = leftOver_;
+    while(!inEof_ && (res != bufferSize_))
+    {
+      const external_int_type ec = externalbuf_->sbumpc();
+      inEof_ = externalTraitsT::eq_int_type(externalTraitsT::eof(), ec);
+      if(!inEof_)
+        from_[res++] = externalTraitsT::to_char_type(ec);
+    } // while ...
+    if(res == 0)
+      break;
+
+    const externalCharT* from_next = from_;
+    const externalCharT* const from_end = from_ + res;
     std::codecvt_base::result r;
-    const externalCharT* from_next = from;
+    bool progress;
     do
     {
+      while(inBuffer_.size() < static_cast<size_t>(pbSize_ + converted + bufferSize_))
+        growInBuffer();  // need more room!
+
       // can't cache this as may reallocate buffer
-      charT* const to = &(inBuffer_[0])+pbSize_;
-      charT* const to_end = &(inBuffer_[0]) + inBuffer_.capacity() - pbSize_;
+      charT* const to = &(inBuffer_[0]) + pbSize_ + converted;
+      charT* const to_end = &(inBuffer_[0]) + inBuffer_.size();
       charT* to_next;
+      const externalCharT* const from_start = from_next;
 
-      externalCharT* const from_end = from + res;
-      
-      r = cvt.in(inState_, from_next, from_end, from_next,
-                 to + converted, to_end, to_next);
-
+      r = cvt.always_noconv() ? std::codecvt_base::noconv :
+                                cvt.in(inState_, from_next, from_end, from_next, to, to_end, to_next);
       if(r == std::codecvt_base::noconv)
       {
-        memcpy(&(inBuffer_[0])+pbSize_, from, res);
-        converted = res;
-      }
-      else
-        converted += static_cast<std::streamsize>(to_next - (to + converted));
+        from_next = from_end;
+        to_next = std::copy(from_start, from_end, to);
+      } // if ...
 
-      if(r == std::codecvt_base::partial)
-      {
-        // haven't done everything
-        if(to_next == to_end)
-          growInBuffer();  // need more room!
-        else
-        {
-          int shortfall = (from + res) - from_next;
-          memcpy(from, from_next, shortfall);
-          res = externalbuf_->sgetn(from + shortfall, static_cast<std::streamsize>(bufferSize_ - shortfall));
-          from_next = &from[0];
-          if(res == 0) // oh dear
-            break; // let's bail!
-          res += shortfall;
-        }
-      } // if(r == std::codecvt_base::partial)
+      converted += static_cast<std::streamsize>(to_next - to);
+      progress = (from_next != from_start) || (to_next != to);
     }
-    while(r == std::codecvt_base::partial);
+    while((r == std::codecvt_base::partial) && progress);
+
+    leftOver_ = from_end - from_next;
+    std::copy(from_next, from_end, from_);
 
-    if(r == std::codecvt_base::error)
+    if((r == std::codecvt_base::error) || ((r == std::codecvt_base::partial) && inEof_))
     {
-      // couldn't convert - let's bail
-      return 0;
-    } // if(r == std::codecvt_base::error)
-  }
+      // couldn't convert, or there's no more of it - let's bail
+      inEof_ = true;
+      leftOver_ = 0;
+      break;
+    } // if ...
+  } // while ...
 
   streambufT::setg(&(inBuffer_[0]) + (pbSize_-pbCount), &(inBuffer_[0])+pbSize_, &(inBuffer_[0])+pbSize_+converted);
 
-  return static_cast<int_type>(res);
+  return converted;
 } // readIn
 
 ////////////////////////////////////////////////////
diff --git a/include/io/convertstream.hpp b/include/io/convertstream.hpp
index 8459dba..f4d3300 100644
--- a/include/io/convertstream.hpp
+++ b/include/io/convertstream.hpp
@@ -136,10 +136,11 @@ public:
     stringT converted;
     const fromCharT* from_next = str.data();
     typename std::codecvt_base::result r;
-    typename traitsT::state_type state;
+    typename traitsT::state_type state = typename traitsT::state_type();
 
     do
     {
+      const fromCharT* const from_start = from_next;
       charT* to_next;
       r = cvt.in(state, from_next, str.data() + str.length(), from_next, 
                  to_, to_ + toSize_, to_next);
@@ -149,6 +150,8 @@ public:
         break;
       }
       converted.append(to_, (to_next - to_));
+      if((to_next == to_) && (from_next == from_start))
+        break; // what's left is incomplete
     }
     while(r == std::codecvt_base::partial);
 
@@ -228,10 +231,11 @@ public:
       // we must do code conversion
       const charT* from_next = newstuff.data();
       typename std::codecvt_base::result r;
-      typename traitsT::state_type state;
+      typename traitsT::state_type state = typename traitsT::state_type();
 
       do
       {
+        const charT* const from_start = from_next;
         toCharT* to_next;
         r = cvt.out(state, from_next, newstuff.data() + newstuff.length(), from_next, 
                     to_, to_ + toSize_, to_next);
@@ -241,6 +245,8 @@ public:
           break;
         }
         out.append(to_, (to_next - to_));
+        if((to_next == to_) && (from_next == from_start))
+          break; // what's left is incomplete
       }
       while(r == std::codecvt_base::partial);
       // naughty! ignore (r == std::codecvt_base::error)
-- 
2.43.0


From c83317d2ecd9f02e197cdcb020488feadbb77eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 026/106] fix: whitespace normalisation looks at whole
 characters

---
 include/text/normalize_whitespace.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/text/normalize_whitespace.hpp b/include/text/normalize_whitespace.hpp
index 97b2823..1e87ace 100644
--- a/include/text/normalize_whitespace.hpp
+++ b/include/text/normalize_whitespace.hpp
@@ -26,14 +26,14 @@ inline std::string normalize_whitespace<std::string, Arabica::default_string_ada
   std::string::iterator p = value.begin(), pe = value.end();
 
   // string leading space
-  while((i != ie) && (Arabica::XML::is_space(static_cast<char>(*i))))
+  while((i != ie) && (Arabica::XML::is_space(*i)))
     ++i;
     
   while(i != ie)
   {
-    while((i != ie) && (!Arabica::XML::is_space(static_cast<char>(*i)))) 
+    while((i != ie) && (!Arabica::XML::is_space(*i))) 
       *p++ = *i++;
-    while((i != ie) && (Arabica::XML::is_space(static_cast<char>(*i))))
+    while((i != ie) && (Arabica::XML::is_space(*i)))
       ++i;
     if(i != ie)
       *p++ = Arabica::text::Unicode<char>::SPACE;
-- 
2.43.0


From fb4069fda2b9ea1312182657daff6cca343dc2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 027/106] fix: names in narrow strings may contain characters
 beyond ASCII

---
 include/DOM/Simple/NodeImpl.hpp | 58 ++++++++++++++++++++++---------
 include/XML/strings.hpp         | 60 ++++++++++++++++++++++++---------
 2 files changed, 87 insertions(+), 31 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 3e1c787..18779fd 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -10,6 +10,7 @@
 #include <DOM/Events/EventListener.hpp>
 #include <DOM/DOMException.hpp>
 #include <XML/XMLCharacterClasses.hpp>
+#include <XML/strings.hpp>
 #include <deque>
 #include <algorithm>
 #include <map>
@@ -207,28 +208,53 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
   protected:
     void checkName(const stringT& str) const
     {
-      if(string_adaptorT::length(str) == 0)
-	throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
-      typedef typename string_adaptorT::const_iterator const_iterator;
-      const_iterator i = string_adaptorT::begin(str);
-      const_iterator ie = string_adaptorT::end(str);
-      if(XML::is_name_char(*i) && !XML::is_letter(*i) && *i != '_' && *i != ':')
-	throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
-      for( ; i != ie; ++i)
-	if(!XML::is_name_char(*i))
-	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
+      if(!is_name(str))
+        throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkName
 
     void checkChars(const stringT& str) const
     {
-      typedef typename string_adaptorT::const_iterator const_iterator;
-      const_iterator i = string_adaptorT::begin(str);
-      const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_char(*i))
-	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
+      if(XML::impl::is_multibyte<string_adaptorT>(string_adaptorT::begin(str), string_adaptorT::end(str)))
+      {
+        std::wstring wide;
+        if(!XML::impl::widen<string_adaptorT>(str, wide) || !all_chars(wide.begin(), wide.end()))
+          throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
+        return;
+      } // if ...
+      if(!all_chars(string_adaptorT::begin(str), string_adaptorT::end(str)))
+        throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkChars
 
+    static bool is_name(const stringT& str)
+    {
+      if(XML::impl::is_multibyte<string_adaptorT>(string_adaptorT::begin(str), string_adaptorT::end(str)))
+      {
+        std::wstring wide;
+        return XML::impl::widen<string_adaptorT>(str, wide) && name_chars(wide.begin(), wide.end());
+      } // if ...
+      return name_chars(string_adaptorT::begin(str), string_adaptorT::end(str));
+    } // is_name
+
+    template<typename const_iterator>
+    static bool name_chars(const_iterator i, const_iterator ie)
+    {
+      if((i == ie) || (!XML::is_letter(*i) && *i != '_' && *i != ':'))
+        return false;
+      for( ; i != ie; ++i)
+        if(!XML::is_name_char(*i))
+          return false;
+      return true;
+    } // name_chars
+
+    template<typename const_iterator>
+    static bool all_chars(const_iterator i, const_iterator ie)
+    {
+      for( ; i != ie; ++i)
+        if(!XML::is_char(*i))
+          return false;
+      return true;
+    } // all_chars
+
     NodeImplT* parentNode_;
     DocumentImplT* ownerDoc_;
     NodeImplT* prevSibling_;
diff --git a/include/XML/strings.hpp b/include/XML/strings.hpp
index fb01057..ad04e41 100755
--- a/include/XML/strings.hpp
+++ b/include/XML/strings.hpp
@@ -3,6 +3,7 @@
 
 #include <XML/XMLCharacterClasses.hpp>
 #include <text/UnicodeCharacters.hpp>
+#include <string>
 
   // QName 
   //[7]  QName	   ::=   	PrefixedName | UnprefixedName
@@ -20,29 +21,58 @@ namespace Arabica
 {
 namespace XML
 {
+  namespace impl
+  {
+  // Names are made of characters.  In a string of char, anything beyond ASCII
+  // takes several chars, so has to be widened before we can look at it.
   template<typename string_adaptor>
-  inline bool is_ncname(const typename string_adaptor::const_iterator& b,
-                        const typename string_adaptor::const_iterator& e)
+  inline bool is_multibyte(typename string_adaptor::const_iterator b,
+                           const typename string_adaptor::const_iterator& e)
   {
-    using namespace Arabica::text;
-    typedef typename string_adaptor::const_iterator const_iterator;
-    typedef typename string_adaptor::value_type value_type;
+    if(sizeof(typename string_adaptor::value_type) != sizeof(char))
+      return false;
+    for( ; b != e; ++b)
+      if(static_cast<unsigned char>(*b) > 0x7F)
+        return true;
+    return false;
+  } // is_multibyte
 
-    if(b == e)
+  template<typename string_adaptor>
+  inline bool widen(const typename string_adaptor::string_type& str, std::wstring& wide)
+  {
+    wide = string_adaptor::asStdWString(str);
+    // badly encoded strings don't survive the round trip
+    return string_adaptor::construct_from_utf16(wide.data(), static_cast<int>(wide.length())) == str;
+  } // widen
+
+  template<typename const_iterator>
+  inline bool is_ncname(const_iterator s, const const_iterator& e)
+  {
+    if(s == e)
       return false;  // zero length
 
-    const_iterator s = b;
-    if(!(is_letter(*s) || (*s == Unicode<value_type>::LOW_LINE)))
-       return false;
+    if(!(is_letter(*s) || (*s == '_')))
+      return false;
 
-    ++s;
-    for( ; s != e; ++s)
-    {
-      value_type c = *s;
-      if(!is_ncname_char(c))
+    for(++s; s != e; ++s)
+      if(!is_ncname_char(*s))
         return false;
-    }
     return true;
+  } // is_ncname
+  } // namespace impl
+
+  template<typename string_adaptor>
+  inline bool is_ncname(const typename string_adaptor::const_iterator& b,
+                        const typename string_adaptor::const_iterator& e)
+  {
+    if(impl::is_multibyte<string_adaptor>(b, e))
+    {
+      std::wstring wide;
+      return impl::widen<string_adaptor>(string_adaptor::construct(b, e), wide) &&
+             impl::is_ncname(wide.begin(), wide.end());
+    } // if ...
+
+    return impl::is_ncname(b, e);
   } // is_ncname  
 
   template<typename string_adaptor>
-- 
2.43.0


From c6928709400f2353c23d43a5daefd3e6ef493b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 028/106] fix: URI resolution follows RFC 3986 for dot
 segments, queries, fragments and empty paths

---
 src/io/uri.cpp | 121 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 90 insertions(+), 31 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 24e3cf6..de24bad 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <vector>
 #include <io/uri.hpp>
 
 using namespace Arabica::io;
@@ -48,6 +49,8 @@ URI::URI(const URI& base, const std::string& relativeUrl) :
     URI relUrl(relativeUrl);
     absolutise(relUrl);
   } // if ... 
+  else
+    path_.erase(std::min(path_.find('#'), path_.length()));
 } // URI         
 
 const std::string& URI::port() const
@@ -62,7 +65,7 @@ std::string URI::as_string() const
   std::string str;
   if(!scheme_.empty())
     str.append(scheme_).append(COLON);
-  if(is_absolute_)
+  if(is_absolute_ || !host_.empty())
     str.append("//");
   if(!host_.empty())
   {
@@ -94,9 +97,10 @@ void URI::parse_uri(const std::string& uri)
   // I'd like to use something a bit stronger - http://code.google.com/p/uri-grammar/
   // but that would put a Boost Spirit dependence right in the core, which I'm not prepared to do at the moment
 
-  size_t d = uri.find_first_of(COLON);
-  if(d == std::string::npos)
+  size_t d = uri.find_first_of(":/?#\\");
+  if(d == 0 || d == std::string::npos || uri[d] != ':')
   {
+    // no scheme - a colon further on is part of the path, the query or the fragment
     path_ = uri;
     fixSlashes(path_);
     return;
@@ -117,7 +121,7 @@ void URI::parse_uri(const std::string& uri)
   std::string::const_iterator ue = uri.end();
 
   ++u;
-  if(*u == FORWARD_SLASH && *(u+1) == FORWARD_SLASH)
+  if((ue - u) >= 2 && *u == FORWARD_SLASH && *(u+1) == FORWARD_SLASH)
   {
     u += 2;
     u = parseAuthority(u, ue);
@@ -129,15 +133,13 @@ void URI::parse_uri(const std::string& uri)
 std::string::const_iterator URI::parseAuthority(const std::string::const_iterator& u, 
 						const std::string::const_iterator& ue)
 {
-  std::string::const_iterator slash = std::find(u, ue, FORWARD_SLASH);
-  if(slash == ue)
-  {
-    // ah, this is easy
-    host_.append(u, ue);
-    return ue;
-  } // if(slash == we)
+  const std::string terminators("/?#");
+  std::string::const_iterator slash = std::find_first_of(u, ue, terminators.begin(), terminators.end());
 
-  std::string::const_iterator colon = std::find(u, slash, ':');
+  // the port follows any user information and any bracketed IP literal
+  std::string::const_iterator at = std::find(u, slash, '@');
+  std::string::const_iterator bracket = std::find((at != slash) ? at : u, slash, ']');
+  std::string::const_iterator colon = std::find((bracket != slash) ? bracket : ((at != slash) ? at : u), slash, ':');
   host_.append(u, colon);
 
   if(colon != slash)
@@ -156,6 +158,51 @@ bool compatible_schemes(const std::string& scheme,
   return (scheme == relative);
 } // compatible_schemes
 
+// removes . and .. segments, leaving any query and fragment alone
+void removeDots(std::string& path)
+{
+  const size_t end = std::min(path.find_first_of("?#"), path.length());
+  const bool rooted = (end > 0) && (path[0] == FORWARD_SLASH);
+
+  std::vector<std::string> segments;
+  size_t from = rooted ? 1 : 0;
+  while(from <= end)
+  {
+    const size_t to = std::min(path.find(FORWARD_SLASH, from), end);
+    const std::string segment = path.substr(from, to-from);
+    const bool last = (to == end);
+
+    if(segment == "..")
+    {
+      const bool drive = (segments.size() == 1) && (segments[0].length() == 2) && (segments[0][1] == ':');
+      if(!segments.empty() && segments.back() != ".." && !drive)
+        segments.pop_back();
+      else if(!rooted && !drive)
+        segments.push_back(segment);
+    }
+    else if(segment != ".")
+      segments.push_back(segment);
+
+    if(last && (segment == ".." || segment == "."))
+      segments.push_back("");
+    from = to + 1;
+  } // while ...
+
+  std::string cleaned;
+  if(rooted)
+    cleaned += FORWARD_SLASH;
+  for(size_t s = 0; s != segments.size(); ++s)
+  {
+    if(s != 0)
+      cleaned += FORWARD_SLASH;
+    cleaned += segments[s];
+  } // for ...
+  if(cleaned.empty() && end != 0)
+    cleaned = "./";
+
+  path.replace(0, end, cleaned);
+} // removeDots
+
 void URI::absolutise(URI& relative)
 {
   if((relative.is_absolute()) || 
@@ -165,33 +212,45 @@ void URI::absolutise(URI& relative)
     return;
   }
 
-  if(relative.path_[0] == FORWARD_SLASH)
+  if(!scheme_.empty() && relative.scheme_.empty() && relative.path_.compare(0, 2, "//") == 0)
+  {
+    // same scheme, different authority
+    host_.clear();
+    port_.clear();
+    std::string::const_iterator path = parseAuthority(relative.path_.begin()+2, relative.path_.end());
+    path_.assign(path, static_cast<const std::string&>(relative.path_).end());
+    removeDots(path_);
+  }
+  else if(relative.path_[0] == FORWARD_SLASH)
+  {
     path_ = relative.path_;
-  else 
+    removeDots(path_);
+  }
+  else
     combinePath(relative.path_);
 } // absolutise
 
 void URI::combinePath(const std::string& relPath)
 {
-  if(*(path_.rbegin()) != FORWARD_SLASH)
-    path_.erase(path_.rfind(FORWARD_SLASH)+1);
-
-  std::string::size_type from = path_.length() - 1;
-  path_.append(relPath);
-
-  size_t dots = path_.find("/../", from);
-  while(dots != std::string::npos)
+  path_.erase(std::min(path_.find('#'), path_.length()));
+  if(relPath.empty() || relPath[0] == '#')
   {
-    size_t preceding_slash = (dots > 0) ? path_.rfind(FORWARD_SLASH, dots-1) : 0;
-    path_.erase(preceding_slash, dots+3-preceding_slash);
-    dots = path_.find("/../", preceding_slash);
-  } // while
+    path_.append(relPath);
+    return;
+  } // if ...
 
-  size_t dot = path_.find("/./");
-  while(dot != std::string::npos)
+  path_.erase(std::min(path_.find('?'), path_.length()));
+  if(relPath[0] == '?')
   {
-    path_.erase(dot, 2);
-    dot = path_.find("/./", dot);
-  }
+    path_.append(relPath);
+    return;
+  } // if ...
+
+  if(path_.empty() && !host_.empty())
+    path_ += FORWARD_SLASH;
+  path_.erase(path_.rfind(FORWARD_SLASH)+1);
+  path_.append(relPath);
+  removeDots(path_);
 } // combinePath
 
+
-- 
2.43.0


From 53593ab2208fab555a079f49aba77d153873e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 029/106] fix: expat reader survives throwing handlers, reports
 each fatal error once, and reports namespace mappings and parameter entities
 properly

---
 include/SAX/wrappers/saxexpat.hpp | 110 ++++++++++++++++++++----------
 src/SAX/wrappers/saxexpat.cpp     |   4 +-
 2 files changed, 77 insertions(+), 37 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..b982911 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -23,6 +23,7 @@
 #include <SAX/helpers/AttributeDefaults.hpp>
 #include <typeinfo>
 #include <map>
+#include <memory>
 #include <Arabica/getparam.hpp>
 
 namespace Arabica
@@ -119,7 +120,7 @@ private:
   virtual void startCdataSection() = 0;
   virtual void endCdataSection() = 0;
   virtual void commentHandler(const XML_Char* data) = 0;
-  virtual void skippedEntity(const XML_Char* entityName) = 0;
+  virtual void skippedEntity(const XML_Char* entityName, int is_parameter_entity) = 0;
   virtual int externalEntityRefHandler(XML_Parser parser, 
                                        const XML_Char* context,
                                        const XML_Char* base,
@@ -255,6 +256,7 @@ class expat_wrapper :
     virtual void parse(inputSourceT& input);
   private:
     bool do_parse(inputSourceT& source, XML_Parser parser);
+    bool isNamespaceDeclaration(const string_type& attQName) const;
 
   public:
     //////////////////////////////////////////////////
@@ -301,7 +303,7 @@ class expat_wrapper :
     virtual void startCdataSection();
     virtual void endCdataSection();
     virtual void commentHandler(const XML_Char* data);
-    virtual void skippedEntity(const XML_Char* entityName);
+    virtual void skippedEntity(const XML_Char* entityName, int is_parameter_entity);
     virtual int externalEntityRefHandler(XML_Parser parser, 
                                          const XML_Char* context,
                                          const XML_Char* base,
@@ -311,6 +313,11 @@ class expat_wrapper :
 
   private:
     void setCallbacks();
+    // parameter entities have a % on the front
+    string_type makeEntityName(const XML_Char* name, int is_parameter_entity) const
+    {
+      return SA::construct_from_utf8(((is_parameter_entity ? "%" : "") + std::string(name)).c_str());
+    } // makeEntityName
     void startElementNoNS(const char* qName, const char** atts);
     void endElementNoNS(const char* qName);
     void convertXML_Content(std::ostream& os, const XML_Content* model, bool isChild = false);
@@ -328,6 +335,7 @@ class expat_wrapper :
     string_type publicId_;
     string_type systemId_;
     bool parsing_;
+    bool fatalReported_;
 
     // features
     bool namespaces_;
@@ -355,6 +363,7 @@ expat_wrapper<string_type, T0, T1>::expat_wrapper() :
   lexicalHandler_(0),
   parser_(XML_ParserCreate(0)),
   parsing_(false),
+  fatalReported_(false),
   namespaces_(true),
   prefixes_(true),
   externalResolving_(false)
@@ -401,7 +410,7 @@ void expat_wrapper<string_type, T0, T1>::setFeature(const string_type& name, boo
   {
     checkNotParsing(SA::construct_from_utf8("feature"), name);
     prefixes_ = value;
-    if(prefixes_ && !namespaces_)
+    if(!prefixes_ && !namespaces_)
       namespaces_ = true;
     return;
   } // namespace prefixes
@@ -451,8 +460,25 @@ bool expat_wrapper<string_type, T0, T1>::getFeature(const string_type& name) con
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 {
+  // however we leave - handlers may well throw - we leave ready to parse the next document
+  struct ResetOnExit
+  {
+    ResetOnExit(expat_wrapper& wrapper) : wrapper_(wrapper) { }
+    ~ResetOnExit()
+    {
+      wrapper_.parsing_ = false;
+      XML_ParserReset(wrapper_.parser_, 0);
+    } // ~ResetOnExit
+    expat_wrapper& wrapper_;
+  } reset(*this);
+
   setCallbacks();
 
+  nsSupport_.reset();
+  namespaceContextCreated_.clear();
+  declaredExternalEnts_.clear();
+  fatalReported_ = false;
+
   publicId_ = source.getPublicId();
   systemId_ = source.getSystemId();
 
@@ -470,10 +496,6 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   if(contentHandler_)
     contentHandler_->endDocument();
-
-  parsing_ = false;
-
-  XML_ParserReset(parser_, 0);
 } // parse
 
 template<class string_type, class T0, class T1>
@@ -487,7 +509,8 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
   } // if(is.resolver() == 0)
 
   const int BUFF_SIZE = 10*1024;
-  while(!is.resolve()->eof())
+  bool done = false;
+  while(!done)
   {
     char* buffer = (char*)XML_GetBuffer(parser, BUFF_SIZE);
     if(buffer == NULL)
@@ -497,10 +520,11 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     } // if ...
 
     is.resolve()->read(buffer, BUFF_SIZE);
-    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), is.resolve()->eof()) == 0)
+    done = !is.resolve()->good(); // we've had it all, or it's broken
+    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), done) == 0)
     {
       // error
-      reportError(XML_ErrorString(XML_GetErrorCode(parser_)), true);
+      reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
   } // while
@@ -545,6 +569,14 @@ typename XML::QualifiedName<string_type, typename expat_wrapper<string_type, T0,
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::reportError(const std::string& message, bool fatal)
 {
+  // an error in an external entity also brings down the entity that refers to it
+  if(fatal)
+  {
+    if(fatalReported_)
+      return;
+    fatalReported_ = true;
+  } // if ...
+
   if(!errorHandler_)
     return;
   
@@ -578,6 +610,13 @@ void expat_wrapper<string_type, T0, T1>::charHandler(const char* txt, int txtlen
   contentHandler_->characters(SA::construct_from_utf8(txt, txtlen));
 } // charHandler
 
+template<class string_type, class T0, class T1>
+bool expat_wrapper<string_type, T0, T1>::isNamespaceDeclaration(const string_type& attQName) const
+{
+  return (attQName == nsc_.xmlns) || 
+         (SA::find(attQName, SA::concat(nsc_.xmlns, nsc_.colon)) == 0);
+} // isNamespaceDeclaration
+
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const char** atts)
 {
@@ -604,7 +643,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*a1++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) == 0) 
+      if(isNamespaceDeclaration(attQName))
       {
         if (!pushedContext)
         {
@@ -616,9 +655,10 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
         typename SA::size_type n = SA::find(attQName, nsc_.colon);
         if(n != SA::npos())
           prefix = SA::construct(SA::begin(attQName) + n + 1, SA::end(attQName));
-        if(!nsSupport_.declarePrefix(prefix, value)) 
+        if(nsSupport_.declarePrefix(prefix, value)) 
+          contentHandler_->startPrefixMapping(prefix, value);
+        else if((prefix != nsc_.xml) || (value != nsc_.xml_uri)) // xml may only be bound to what it's always bound to
           reportError(std::string("Illegal Namespace prefix ") + SA::asStdString(prefix));
-        contentHandler_->startPrefixMapping(prefix, value);
         if(prefixes_)
           attributes.addAttribute(emptyString_, 
                                   emptyString_, 
@@ -634,7 +674,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*atts++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) != 0) 
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(), 
@@ -689,14 +729,14 @@ void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
   contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
   
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      contentHandler_->endPrefixMapping(prefixes[i]);
     nsSupport_.popContext();
   }
 } // endElement
@@ -866,7 +906,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entityName,
-                           int /*is_parameter_entity*/,
+                           int is_parameter_entity,
                            const XML_Char* value,
                            int value_length,
                            const XML_Char* /*base*/,
@@ -885,7 +925,7 @@ void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entit
    provided. The notationName argument will have a non-null value only
    for unparsed entity declarations. */
 
-  const string_type s_entityName(SA::construct_from_utf8(entityName));
+  const string_type s_entityName(makeEntityName(entityName, is_parameter_entity));
   if(!systemId && !publicId && !notationName)
   {
     // internal entity!
@@ -900,8 +940,10 @@ void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entit
   {
     if(declHandler_)
       declHandler_->externalEntityDecl(s_entityName, s_publicId, s_systemId);
-    declaredExternalEnts_.insert(std::make_pair(s_publicId, s_entityName));
-    declaredExternalEnts_.insert(std::make_pair(s_systemId, s_entityName));
+    if(publicId)
+      declaredExternalEnts_.insert(std::make_pair(s_publicId, s_entityName));
+    if(systemId)
+      declaredExternalEnts_.insert(std::make_pair(s_systemId, s_entityName));
   } 
   else
   {
@@ -929,17 +971,17 @@ void expat_wrapper<string_type, T0, T1>::startDoctypeDecl(const XML_Char *doctyp
                           const XML_Char *publicId,
                           int /*has_internal_subset*/)
 {
-  if(!lexicalHandler_)
-    return;
-
   string_type s_publicId = SA::construct_from_utf8(publicId);
   string_type s_systemId = SA::construct_from_utf8(systemId);
   string_type dtd = SA::construct_from_utf8("[dtd]");
-  declaredExternalEnts_.insert(std::make_pair(s_publicId, dtd));
-  declaredExternalEnts_.insert(std::make_pair(s_systemId, dtd));
-  lexicalHandler_->startDTD(SA::construct_from_utf8(doctypeName),
-                            s_publicId, 
-                            s_systemId);
+  if(publicId)
+    declaredExternalEnts_.insert(std::make_pair(s_publicId, dtd));
+  if(systemId)
+    declaredExternalEnts_.insert(std::make_pair(s_systemId, dtd));
+  if(lexicalHandler_)
+    lexicalHandler_->startDTD(SA::construct_from_utf8(doctypeName),
+                              s_publicId, 
+                              s_systemId);
 } // startDoctypeDecl
 
 template<class string_type, class T0, class T1>
@@ -971,10 +1013,10 @@ void expat_wrapper<string_type, T0, T1>::commentHandler(const XML_Char *data)
 } // commentHandler
 
 template<class string_type, class T0, class T1>
-void expat_wrapper<string_type, T0, T1>::skippedEntity(const XML_Char *entityName)
+void expat_wrapper<string_type, T0, T1>::skippedEntity(const XML_Char *entityName, int is_parameter_entity)
 {
   if(contentHandler_)
-    contentHandler_->skippedEntity(SA::construct_from_utf8(entityName));
+    contentHandler_->skippedEntity(makeEntityName(entityName, is_parameter_entity));
 } // skippedEntity
 
 template<class string_type, class T0, class T1>
@@ -1022,11 +1064,9 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
     source.setSystemId(sysId);
   } // if ...
 
-  XML_Parser externalParser = XML_ExternalEntityParserCreate(parser, context, 0);
-
-  bool ok = do_parse(source, externalParser);
+  std::unique_ptr<XML_ParserStruct, void(*)(XML_Parser)> externalParser(XML_ExternalEntityParserCreate(parser, context, 0), XML_ParserFree);
 
-  XML_ParserFree(externalParser);
+  bool ok = do_parse(source, externalParser.get());
 
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index 6df8219..36a858f 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -119,10 +119,10 @@ void ewim_commentHandler(void* userData, const XML_Char* data)
   p->commentHandler(data);
 } // commentHandler
 
-void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int /* is_parameter_entity */)
+void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int is_parameter_entity)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->skippedEntity(entityName);
+  p->skippedEntity(entityName, is_parameter_entity);
 } // skippedEntityHandler
 
 
-- 
2.43.0


From e702972c2672eacc689d26dfd10164949b3bcb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 030/106] fix: SAX Writer output is well formed and declares
 what was declared

---
 include/SAX/filter/Writer.hpp | 109 ++++++++++++++++++++++++++--------
 1 file changed, 84 insertions(+), 25 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 213f080..dda1250 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -144,9 +144,12 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
   protected:
     /////////////////
     void startEntityDecl(const string_type& name);
-    void publicAndSystem(const string_type& publicId, const string_type& systemId);
+    void publicAndSystem(const string_type& publicId, const string_type& systemId, bool systemIdRequired = false);
+    void quoted(const string_type& literal);
+    void entityValue(const string_type& value);
     void doIndent();
     bool isDtd(const string_type& name);
+    bool isParameterEntity(const string_type& name);
 
     virtual void startElementOpen(const string_type& namespaceURI, const string_type& localName,
                                   const string_type& qName, const AttributesT& atts);
@@ -212,6 +215,9 @@ void Writer<string_type, string_adaptor>::startDocument()
 
   depth_ = 0;
   inCDATA_ = false;
+  inDTD_ = false;
+  internalSubset_ = true;
+  prefixMappings_.clear();
 
   XMLFilterT::startDocument();
 
@@ -263,7 +269,14 @@ void Writer<string_type, string_adaptor>::startElementOpen(
   doIndent();
   *stream_ << UnicodeT::LESS_THAN_SIGN << (!qName.empty() ? qName : localName);
 
-  writeAttributes(prefixMappings_);
+  // if namespace declarations are also reported as attributes, only write them once
+  AttributesImplT mappings;
+  for(int i = 0; i < prefixMappings_.getLength(); ++i)
+    if(atts.getIndex(prefixMappings_.getQName(i)) == -1)
+      mappings.addAttribute(prefixMappings_.getURI(i), prefixMappings_.getLocalName(i), 
+                            prefixMappings_.getQName(i), 
+                            prefixMappings_.getType(i), prefixMappings_.getValue(i));
+  writeAttributes(mappings);
   prefixMappings_.clear();
   writeAttributes(atts);
 
@@ -383,7 +396,12 @@ template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::skippedEntity(const string_type& name)
 {
   startElementClose();
-  if(!isDtd(name))
+  if(isParameterEntity(name))
+  {
+    if(inDTD_ && internalSubset_)
+      *stream_ << name << UnicodeT::SEMI_COLON << std::endl;
+  }
+  else if(!isDtd(name))
     *stream_ << UnicodeT::AMPERSAND << name << UnicodeT::SEMI_COLON;
 
   XMLFilterT::skippedEntity(name);
@@ -407,6 +425,43 @@ bool Writer<string_type, string_adaptor>::isDtd(const string_type& name)
      name[4] == UnicodeT::RIGHT_SQUARE_BRACKET);
 } // isDtd
 
+template<class string_type, class string_adaptor>
+bool Writer<string_type, string_adaptor>::isParameterEntity(const string_type& name)
+{
+  return !name.empty() && name[0] == UnicodeT::PERCENT_SIGN;
+} // isParameterEntity
+
+// as used for system and public identifiers, where there's no escaping
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::quoted(const string_type& literal)
+{
+  const charT quote = (std::find(literal.begin(), literal.end(), UnicodeT::QUOTATION_MARK) == literal.end()) ?
+                         UnicodeT::QUOTATION_MARK : UnicodeT::APOSTROPHE;
+  *stream_ << quote << literal << quote;
+} // quoted
+
+// an entity's value is its replacement text, so character and parameter 
+// entity references have already been dealt with
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::entityValue(const string_type& value)
+{
+  *stream_ << UnicodeT::QUOTATION_MARK;
+  for(typename string_type::const_iterator i = value.begin(), e = value.end(); i != e; ++i)
+  {
+    if(*i == UnicodeT::QUOTATION_MARK)
+      *stream_ << UnicodeT::AMPERSAND << UnicodeT::NUMBER_SIGN << UnicodeT::NUMBER_3 << UnicodeT::NUMBER_4 << UnicodeT::SEMI_COLON;
+    else if(*i == UnicodeT::PERCENT_SIGN)
+      *stream_ << UnicodeT::AMPERSAND << UnicodeT::NUMBER_SIGN << UnicodeT::NUMBER_3 << UnicodeT::NUMBER_7 << UnicodeT::SEMI_COLON;
+    else if(*i == UnicodeT::AMPERSAND)
+      *stream_ << UnicodeT::AMPERSAND << UnicodeT::NUMBER_SIGN << UnicodeT::NUMBER_3 << UnicodeT::NUMBER_8 << UnicodeT::SEMI_COLON;
+    else if(*i == UnicodeT::CARRIAGE_RETURN)
+      *stream_ << UnicodeT::AMPERSAND << UnicodeT::NUMBER_SIGN << UnicodeT::NUMBER_1 << UnicodeT::NUMBER_3 << UnicodeT::SEMI_COLON;
+    else
+      *stream_ << *i;
+  } // for ...
+  *stream_ << UnicodeT::QUOTATION_MARK;
+} // entityValue
+
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::startDTD(const string_type& name, const string_type& publicId, const string_type& systemId)
 {
@@ -557,7 +612,7 @@ void Writer<string_type, string_adaptor>::unparsedEntityDecl(const string_type&
     doIndent();
 
     startEntityDecl(name);
-    publicAndSystem(publicId, systemId);
+    publicAndSystem(publicId, systemId, true);
 
     *stream_ << UnicodeT::SPACE
              << UnicodeT::CAPITAL_N
@@ -632,11 +687,14 @@ void Writer<string_type, string_adaptor>::attributeDecl(const string_type& eleme
       *stream_ << UnicodeT::SPACE
                << valueDefault;
 
-    if(!value.empty())
+    // #REQUIRED and #IMPLIED have no value, #FIXED and nothing at all must have a value
+    if(!value.empty() || valueDefault.empty() || valueDefault[1] == UnicodeT::CAPITAL_F)
+    {
       *stream_ << UnicodeT::SPACE
-               << UnicodeT::QUOTATION_MARK
-               << value
                << UnicodeT::QUOTATION_MARK;
+      std::for_each(value.begin(), value.end(), attribute_escaperT(*stream_));
+      *stream_ << UnicodeT::QUOTATION_MARK;
+    } // if ...
 
     *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
@@ -653,11 +711,9 @@ void Writer<string_type, string_adaptor>::internalEntityDecl(const string_type&
   {
     doIndent();
     startEntityDecl(name);
-    *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << value
-             << UnicodeT::QUOTATION_MARK
-             << UnicodeT::GREATER_THAN_SIGN
+    *stream_ << UnicodeT::SPACE;
+    entityValue(value);
+    *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
   } // if ...
 
@@ -672,7 +728,7 @@ void Writer<string_type, string_adaptor>::externalEntityDecl(const string_type&
   {
     doIndent();
     startEntityDecl(name);
-    publicAndSystem(publicId, systemId);
+    publicAndSystem(publicId, systemId, true);
     *stream_ << UnicodeT::GREATER_THAN_SIGN
             << std::endl;
   } // if ...
@@ -692,29 +748,34 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
            << UnicodeT::CAPITAL_I
            << UnicodeT::CAPITAL_T
            << UnicodeT::CAPITAL_Y
-           << UnicodeT::SPACE
-           << name;
+           << UnicodeT::SPACE;
+  if(isParameterEntity(name))
+    *stream_ << UnicodeT::PERCENT_SIGN 
+             << UnicodeT::SPACE 
+             << string_type(name.begin() + 1, name.end());
+  else
+    *stream_ << name;
 } // startEntityDecl
 
 template<class string_type, class string_adaptor>
-void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& publicId, const string_type& systemId)
+void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& publicId, const string_type& systemId, bool systemIdRequired)
 {
   startElementClose();
   *stream_ << UnicodeT::SPACE;
 
   if(!publicId.empty())
+  {
     *stream_ << UnicodeT::CAPITAL_P
              << UnicodeT::CAPITAL_U
              << UnicodeT::CAPITAL_B
              << UnicodeT::CAPITAL_L
              << UnicodeT::CAPITAL_I
              << UnicodeT::CAPITAL_C
-             << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << publicId
-             << UnicodeT::QUOTATION_MARK;
+             << UnicodeT::SPACE;
+    quoted(publicId);
+  } // if ...
   
-  if(!systemId.empty())
+  if(systemIdRequired || !systemId.empty())
   {
     if(publicId.empty())
       *stream_ << UnicodeT::CAPITAL_S
@@ -723,10 +784,8 @@ void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& pub
                << UnicodeT::CAPITAL_T
                << UnicodeT::CAPITAL_E
                << UnicodeT::CAPITAL_M;
-    *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << systemId
-             << UnicodeT::QUOTATION_MARK;
+    *stream_ << UnicodeT::SPACE;
+    quoted(systemId);
   } // if ...
 } // publicAndSystem
 
-- 
2.43.0


From f27831e76b973ee880591217d944ccd7a2f7ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 031/106] fix: SAX filters and helpers can be reused, keep
 events in order and forget redeclared prefixes

---
 include/SAX/filter/NamespaceTracker.hpp  |  9 ++++++
 include/SAX/filter/TextCoalescer.hpp     | 28 ++++++++++++++++-
 include/SAX/filter/TextOnly.hpp          | 39 +++++++++++++-----------
 include/SAX/filter/XMLBaseTracker.hpp    | 34 +++++++++++++++++++--
 include/SAX/helpers/AttributesImpl.hpp   |  4 ++-
 include/SAX/helpers/NamespaceSupport.hpp |  9 ++++--
 include/SAX/helpers/XMLBaseSupport.hpp   |  6 ++++
 include/SAX/helpers/XMLFilterImpl.hpp    |  3 ++
 8 files changed, 107 insertions(+), 25 deletions(-)

diff --git a/include/SAX/filter/NamespaceTracker.hpp b/include/SAX/filter/NamespaceTracker.hpp
index 19392ce..5ad4224 100644
--- a/include/SAX/filter/NamespaceTracker.hpp
+++ b/include/SAX/filter/NamespaceTracker.hpp
@@ -22,6 +22,7 @@ class NamespaceTracker : public XMLFilterImpl<string_type, string_adaptor>
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef typename XMLReaderT::InputSourceT InputSourceT;
 
   NamespaceTracker() : 
     XMLFilterT()
@@ -65,6 +66,14 @@ public:
     return ns;
   } // inScopeNamespaces
 
+  virtual void parse(InputSourceT& input)
+  {
+    // an earlier parse might not have got to the end
+    namespaces_.reset();
+    buffer_.clear();
+    XMLFilterT::parse(input);
+  } // parse
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..6570352 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -23,6 +23,7 @@ class TextCoalescer : public XMLFilterImpl<string_type, string_adaptor>
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef typename XMLReaderT::InputSourceT InputSourceT;
 
   TextCoalescer() : 
     XMLFilterT()
@@ -34,6 +35,24 @@ public:
   {
   } // TextCoalescer
 
+  virtual void parse(InputSourceT& input)
+  {
+    buffer_ = string_adaptor::empty_string(); // an earlier parse might not have got to the end
+    XMLFilterT::parse(input);
+  } // parse
+
+  virtual void endDocument()
+  {
+    flush();
+    XMLFilterT::endDocument();
+  } // endDocument
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
+  {
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) 
   { 
@@ -64,6 +83,12 @@ public:
     XMLFilterT::processingInstruction(target, data);
   } // processingInstruction
 
+  virtual void skippedEntity(const string_type& name) 
+  { 
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
   virtual void startCDATA() 
   { 
     flush();
@@ -101,8 +126,9 @@ private:
     if(string_adaptor::empty(buffer_))
       return;
 
-    XMLFilterT::characters(buffer_);
+    string_type text(buffer_);
     buffer_ = string_adaptor::empty_string();
+    XMLFilterT::characters(text);
   } // flush
 
   string_type buffer_;
diff --git a/include/SAX/filter/TextOnly.hpp b/include/SAX/filter/TextOnly.hpp
index a471466..bb26f34 100644
--- a/include/SAX/filter/TextOnly.hpp
+++ b/include/SAX/filter/TextOnly.hpp
@@ -20,9 +20,10 @@ class TextOnly : public XMLFilterImpl<string_type, string_adaptor>
 
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
+  typedef Attributes<string_type, string_adaptor> AttributesT;
 
   TextOnly() : 
-    XMLFilterT(0)
+    XMLFilterT()
   { 
   } // TextOnly
 
@@ -32,32 +33,34 @@ public:
   } // TextOnly
 
   // ContentHandler
-  virtual void startElement(const stringT& namespaceURI, const stringT& localName,
-                            const stringT& qName, const AttributesT& atts) { }
-  virtual void endElement(const stringT& namespaceURI, const stringT& localName,
-                          const stringT& qName) { }
-  virtual void processingInstruction(const stringT& target, const stringT& data) { }
-  virtual void skippedEntity(const stringT& name) { }
+  virtual void startElement(const string_type& /* namespaceURI */, const string_type& /* localName */,
+                            const string_type& /* qName */, const AttributesT& /* atts */) { }
+  virtual void endElement(const string_type& /* namespaceURI */, const string_type& /* localName */,
+                          const string_type& /* qName */) { }
+  virtual void startPrefixMapping(const string_type& /* prefix */, const string_type& /* uri */) { }
+  virtual void endPrefixMapping(const string_type& /* prefix */) { }
+  virtual void processingInstruction(const string_type& /* target */, const string_type& /* data */) { }
+  virtual void skippedEntity(const string_type& /* name */) { }
 
   // Lexical Handler
-  virtual void startDTD(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void startDTD(const string_type& /* name */, const string_type& /* publicId */, const string_type& /* systemId */) { }
   virtual void endDTD() { }
-  virtual void startEntity(const stringT& name) { }
-  virtual void endEntity(const stringT& name) { }
+  virtual void startEntity(const string_type& /* name */) { }
+  virtual void endEntity(const string_type& /* name */) { }
   virtual void startCDATA() { }
   virtual void endCDATA() { }
-  virtual void comment(const stringT& text) { }
+  virtual void comment(const string_type& /* text */) { }
 
   // DTD Handler
-  virtual void notationDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
-  virtual void unparsedEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId, const stringT& notationName) { }
+  virtual void notationDecl(const string_type& /* name */, const string_type& /* publicId */, const string_type& /* systemId */) { }
+  virtual void unparsedEntityDecl(const string_type& /* name */, const string_type& /* publicId */, const string_type& /* systemId */, const string_type& /* notationName */) { }
 
   // Decl Handler
-  virtual void elementDecl(const stringT& name, const stringT& model) { }
-  virtual void attributeDecl(const stringT& elementName, const stringT& attributeName,
-                              const stringT& type, const stringT& valueDefault, const stringT& value) { }
-  virtual void internalEntityDecl(const stringT& name, const stringT& value) { }
-  virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId) { }
+  virtual void elementDecl(const string_type& /* name */, const string_type& /* model */) { }
+  virtual void attributeDecl(const string_type& /* elementName */, const string_type& /* attributeName */,
+                              const string_type& /* type */, const string_type& /* valueDefault */, const string_type& /* value */) { }
+  virtual void internalEntityDecl(const string_type& /* name */, const string_type& /* value */) { }
+  virtual void externalEntityDecl(const string_type& /* name */, const string_type& /* publicId */, const string_type& /* systemId */) { }
 }; // class TextOnly
 
 } // namespace SAX
diff --git a/include/SAX/filter/XMLBaseTracker.hpp b/include/SAX/filter/XMLBaseTracker.hpp
index 6a3b170..674d523 100644
--- a/include/SAX/filter/XMLBaseTracker.hpp
+++ b/include/SAX/filter/XMLBaseTracker.hpp
@@ -21,18 +21,21 @@ public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Locator<string_type, string_adaptor> LocatorT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef typename XMLReaderT::InputSourceT InputSourceT;
 
   XMLBaseTracker() : 
     XMLFilterT(),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    parsing_(false)
   { 
   } // XMLBaseTracker
 
   XMLBaseTracker(XMLReaderT& parent) : 
     XMLFilterT(parent),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    parsing_(false)
   { 
   } // XMLBaseTracker
 
@@ -40,9 +43,31 @@ public:
 
   void setDocumentLocation(const string_type& loc)
   {
+    if(!parsing_)
+      location_ = loc;
     setDocLoc(loc);
   } // setDocumentLocation
 
+  virtual void parse(InputSourceT& input)
+  {
+    // might have parsed something else already
+    xmlbase_.reset();
+    base_set_ = false;
+    locator_ = 0;
+    if(!string_adaptor::empty(location_))
+      setDocLoc(location_);
+
+    try {
+      parsing_ = true;
+      XMLFilterT::parse(input);
+      parsing_ = false;
+    }
+    catch(...) {
+      parsing_ = false;
+      throw;
+    } // catch
+  } // parse
+
   virtual void setDocumentLocator(const LocatorT& locator)
   {
     locator_ = &locator;
@@ -52,6 +77,9 @@ public:
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
+    // must know where we are before xml:base can change it
+    if(!base_set_ && locator_)
+      setDocLoc(locator_->getSystemId());
     xmlbase_.startElement(atts);
     XMLFilterT::startElement(namespaceURI, localName, qName, atts);
   } // startElement
@@ -87,6 +115,8 @@ private:
   mutable XMLBaseSupportT xmlbase_;
   const LocatorT* locator_;
   mutable bool base_set_;
+  string_type location_;
+  bool parsing_;
 }; // class XMLBaseTracker
 
 } // namespace SAX
diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 12ae708..f7bc8b8 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -92,7 +92,9 @@ public:
 
   AttributesImpl& operator=(const AttributesT& rhs) 
   {
-    setAttributes(rhs);
+    if(&rhs != this)
+      setAttributes(rhs);
+    return *this;
   } // operator=
 
   bool operator==(const AttributesImpl& rhs) const
diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 4f9998c..7f9da33 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -3,6 +3,7 @@
 
 #include <SAX/ArabicaConfig.hpp>
 #include <map>
+#include <algorithm>
 #include <vector>
 #include <functional>
 #include <XML/QName.hpp>
@@ -277,7 +278,7 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if(!string_adaptor::empty(u->first) && (u->second == uri) && (getURI(u->first) == uri)) // might have been redeclared
             return u->first;
       } // for ...
 
@@ -304,7 +305,8 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(!string_adaptor::empty(u->first))
+          if(!string_adaptor::empty(u->first) && 
+             (std::find(prefixes.begin(), prefixes.end(), u->first) == prefixes.end()))
             prefixes.push_back(u->first);
       } // for ...
        
@@ -339,7 +341,8 @@ class NamespaceSupport
       for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
       {
         for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
+          if(!string_adaptor::empty(u->first) && (u->second == uri) && (getURI(u->first) == uri) &&
+             (std::find(prefixes.begin(), prefixes.end(), u->first) == prefixes.end()))
             prefixes.push_back(u->first);
       } // for ...
 
diff --git a/include/SAX/helpers/XMLBaseSupport.hpp b/include/SAX/helpers/XMLBaseSupport.hpp
index ce48dbf..aa40859 100644
--- a/include/SAX/helpers/XMLBaseSupport.hpp
+++ b/include/SAX/helpers/XMLBaseSupport.hpp
@@ -59,6 +59,12 @@ public:
     bases_.push(std::make_pair(-1, loc));
   } // setDocumentLocation
 
+  void reset()
+  {
+    bases_ = baseStackT();
+    depth_ = 0;
+  } // reset
+
   void startElement(const AttributesT& atts)
   {
     ++depth_;
diff --git a/include/SAX/helpers/XMLFilterImpl.hpp b/include/SAX/helpers/XMLFilterImpl.hpp
index 0724132..d1554a4 100644
--- a/include/SAX/helpers/XMLFilterImpl.hpp
+++ b/include/SAX/helpers/XMLFilterImpl.hpp
@@ -211,6 +211,9 @@ public:
    */
   virtual void parse(InputSourceT& input)
   {
+    if(!parent_)
+      throw SAXException("XMLFilterImpl::parse - no parent to parse with");
+
     setupParse();
     parent_->parse(input);
   } // parse
-- 
2.43.0


From ffe478e81dc1d4f9d552b7609e44bb80eaabe638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 032/106] fix: input source resolver copes with short paths,
 refused and broken connections

---
 src/SAX/helpers/InputSourceResolver.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/SAX/helpers/InputSourceResolver.cpp b/src/SAX/helpers/InputSourceResolver.cpp
index ce6266a..5cc3987 100644
--- a/src/SAX/helpers/InputSourceResolver.cpp
+++ b/src/SAX/helpers/InputSourceResolver.cpp
@@ -8,6 +8,7 @@
 
 #include <SAX/helpers/InputSourceResolver.hpp>
 #include <istream>
+#include <string>
 #include <fstream>
 #include <io/socket_stream.hpp>
 #include <io/uri.hpp>
@@ -95,7 +96,7 @@ namespace
       if(*i == '/')
         *i = '\\';
 
-    if((fileName[0] == '\\') && (fileName[2] == ':'))
+    if((fileName.length() > 2) && (fileName[0] == '\\') && (fileName[2] == ':'))
       fileName.erase(0, 1);
 
     ifs = new std::ifstream(fileName.c_str());
@@ -125,18 +126,18 @@ namespace
 
     Arabica::io::socketstream* ifs = new Arabica::io::socketstream(url.host().c_str(), std::atoi(url.port().c_str()));
     if(!ifs->is_open())
+    {
+      delete ifs;
       return 0;
+    } // if ...
     *ifs << "GET " << url.path() << " HTTP/1.0" << std::endl;
     *ifs << "Host: " << url.host() << std::endl;
     *ifs << "Connection: close" << std::endl;
     *ifs << std::endl;
 
-    char buffer[1024];
-    do
-    {
-      ifs->getline(buffer, sizeof(buffer));
-    }
-    while(buffer[0] != '\r');
+    std::string header;
+    while(std::getline(*ifs, header) && !header.empty() && (header[0] != '\r'))
+      ; // skip the headers
 
     return ifs;
   } // httpResolver
-- 
2.43.0


From 1460460eb9ce69eda65a27f56037a69ac9015edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 033/106] fix: libxml2 reader survives throwing handlers,
 broken streams and missing documents; xerces progressive parse keeps its
 system id

---
 include/SAX/wrappers/saxlibxml2.hpp | 59 +++++++++++++++++++++--------
 include/SAX/wrappers/saxxerces.hpp  |  4 +-
 2 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index b693b52..1974074 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -211,6 +211,7 @@ class libxml2_wrapper :
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
+    bool isNamespaceDeclaration(const string_type& attQName) const;
 
   private:
     // member variables
@@ -310,7 +311,7 @@ void libxml2_wrapper<string_type, T0, T1>::setFeature(const string_type& name, b
   {
     checkNotParsing(string_adaptor::construct_from_utf8("feature"), name);
     prefixes_ = value;
-    if(prefixes_ && !namespaces_)
+    if(!prefixes_ && !namespaces_)
       namespaces_ = true;
     return;
   }
@@ -409,27 +410,50 @@ size_t libxml2_wrapper<string_type, T0, T1>::getColumnNumber() const
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 {
+  // however we leave - handlers may well throw - we leave ready to parse the next document
+  struct ResetOnExit
+  {
+    ResetOnExit(libxml2_wrapper& wrapper) : wrapper_(wrapper) { }
+    ~ResetOnExit()
+    {
+      xmlCtxtResetPush(wrapper_.context_, 0, 0, 0, 0);
+      wrapper_.parsing_ = false;
+    } // ~ResetOnExit
+    libxml2_wrapper& wrapper_;
+  } reset(*this);
+
+  nsSupport_.reset();
+  isInCData_ = false;
+
   if(contentHandler_)
     contentHandler_->setDocumentLocator(*this);
 
   InputSourceResolver is(source, string_adaptor());
   if(is.resolve() == 0)
+  {
+    reportError("Could not resolve XML document", true);
     return;
+  } // if ...
 
   parsing_ = true;
 
-	while(!is.resolve()->eof())
+	bool done = false;
+	while(!done)
  	{
 		char buffer[4096];
 		is.resolve()->read(buffer, sizeof(buffer));
-		xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), is.resolve()->eof());
-	} // while(!in.eof())
-
-  xmlCtxtResetPush(context_, 0, 0, 0, 0);
-
-  parsing_ = false;
+		done = !is.resolve()->good(); // we've had it all, or it's broken
+		xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), done);
+	} // while(!done)
 } // parse
 
+template<class string_type, class T0, class T1>
+bool libxml2_wrapper<string_type, T0, T1>::isNamespaceDeclaration(const string_type& attQName) const
+{
+  return (attQName == nsc_.xmlns) ||
+         (string_adaptor::find(attQName, string_adaptor::concat(nsc_.xmlns, nsc_.colon)) == 0);
+} // isNamespaceDeclaration
+
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::SAXstartDocument()
 {
@@ -568,15 +592,16 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*a1++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) == 0)
+      if(isNamespaceDeclaration(attQName))
       {
         string_type prefix;
         typename string_adaptor::size_type n = string_adaptor::find(attQName, nsc_.colon);
         if(n != string_adaptor::npos())
           prefix = string_adaptor::construct(string_adaptor::begin(attQName) + n + 1, string_adaptor::end(attQName));
-        if(!nsSupport_.declarePrefix(prefix, value))
+        if(nsSupport_.declarePrefix(prefix, value))
+          contentHandler_->startPrefixMapping(prefix, value);
+        else if((prefix != nsc_.xml) || (value != nsc_.xml_uri)) // xml may only be bound to what it's always bound to
           reportError(std::string("Illegal Namespace prefix ") + string_adaptor::asStdString(prefix));
-        contentHandler_->startPrefixMapping(prefix, value);
         if(prefixes_)
           attributes.addAttribute(emptyString_,
                                   emptyString_,
@@ -592,7 +617,7 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*atts++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) != 0)
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(),
@@ -794,9 +819,13 @@ void libxml2_wrapper<string_type, T0, T1>::SAXattributeDecl(const xmlChar *elem,
   if(!declHandler_)
     return;
 
-  const string_type* defType = &attrDefaults_.implied;
-  if(def)
-    defType = (defaultValue) ? &attrDefaults_.fixed : &attrDefaults_.required;
+  const string_type* defType = &emptyString_;
+  if(def == XML_ATTRIBUTE_REQUIRED)
+    defType = &attrDefaults_.required;
+  else if(def == XML_ATTRIBUTE_IMPLIED)
+    defType = &attrDefaults_.implied;
+  else if(def == XML_ATTRIBUTE_FIXED)
+    defType = &attrDefaults_.fixed;
 
   string_type typeStr;
   switch(type)
diff --git a/include/SAX/wrappers/saxxerces.hpp b/include/SAX/wrappers/saxxerces.hpp
index 82cf335..3750ac7 100644
--- a/include/SAX/wrappers/saxxerces.hpp
+++ b/include/SAX/wrappers/saxxerces.hpp
@@ -916,8 +916,8 @@ bool xerces_wrapper<string_type,
   {
     // We can just pass the systemID to parseFirst and let Xerces open the
     // stream.
-    const char* systemID = XSA::asStdString(input.getSystemId()).c_str();
-    result = xerces_->parseFirst(systemID, newToken->token_);
+    const std::string systemID = XSA::asStdString(input.getSystemId());
+    result = xerces_->parseFirst(systemID.c_str(), newToken->token_);
   }
   else
   {
-- 
2.43.0


From 95950a74da65e2c4a3799a9737932fc5a4c87d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 034/106] fix: attribute declarations with plain defaults,
 unambiguous PYX records

---
 include/SAX/filter/PYXWriter.hpp  | 18 +++++++++++++-----
 include/SAX/wrappers/saxexpat.hpp |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/SAX/filter/PYXWriter.hpp b/include/SAX/filter/PYXWriter.hpp
index a978f32..2a8a7dc 100644
--- a/include/SAX/filter/PYXWriter.hpp
+++ b/include/SAX/filter/PYXWriter.hpp
@@ -48,6 +48,11 @@ class PYXWriter : public XMLFilterImpl<string_type, string_adaptor>
 
   private: 
     void escape(const string_type& ch);
+    // there's no local name if namespaces aren't being processed, or for a namespace declaration
+    string_type pyxName(const string_type& localName, const string_type& qName) const
+    {
+      return !string_adaptor::empty(localName) ? localName : qName;
+    } // pyxName
 
     ostreamT* stream_;
 }; // class PYXWriter
@@ -57,10 +62,10 @@ void PYXWriter<string_type, string_adaptor>::startElement(
                               const string_type& namespaceURI, const string_type& localName,
                               const string_type& qName, const AttributesT& atts)
 { 
-  *stream_ << UnicodeT::LEFT_PARENTHESIS << localName << std::endl;
+  *stream_ << UnicodeT::LEFT_PARENTHESIS << pyxName(localName, qName) << std::endl;
   for(int i = 0; i < atts.getLength(); ++i)
   {
-    *stream_ << UnicodeT::CAPITAL_A << atts.getLocalName(i) 
+    *stream_ << UnicodeT::CAPITAL_A << pyxName(atts.getLocalName(i), atts.getQName(i))
              << UnicodeT::SPACE;
     escape(atts.getValue(i));
     *stream_ << std::endl; 
@@ -74,7 +79,7 @@ void PYXWriter<string_type, string_adaptor>::endElement(
                             const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName)
 {
-  *stream_ << UnicodeT::RIGHT_PARENTHESIS << localName << std::endl;
+  *stream_ << UnicodeT::RIGHT_PARENTHESIS << pyxName(localName, qName) << std::endl;
 
   XMLFilterT::endElement(namespaceURI, localName, qName);
 } // endElement
@@ -93,8 +98,9 @@ template<class string_type, class string_adaptor>
 void PYXWriter<string_type, string_adaptor>::processingInstruction(const string_type& target, const string_type& data)
 {
   *stream_ << UnicodeT::QUESTION_MARK << target
-           << UnicodeT::SPACE << data
-           << std::endl;
+           << UnicodeT::SPACE;
+  escape(data);
+  *stream_ << std::endl;
 
   XMLFilterT::processingInstruction(target, data);
 } // processingInstruction
@@ -105,6 +111,8 @@ void PYXWriter<string_type, string_adaptor>::escape(const string_type& ch)
   for(typename string_adaptor::const_iterator s = string_adaptor::begin(ch), se = string_adaptor::end(ch); s != se; ++s)
     if(*s == UnicodeT::LINE_FEED)
       *stream_ << UnicodeT::BACK_SLASH << UnicodeT::LOWERCASE_N;
+    else if(*s == UnicodeT::BACK_SLASH)
+      *stream_ << UnicodeT::BACK_SLASH << UnicodeT::BACK_SLASH;
     else
       *stream_ << *s;
 } // escape
diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index b982911..fd857d6 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -893,7 +893,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
   default is non-NULL, then this is a "#FIXED" default. */
   if(declHandler_)
   {
-    const string_type* defType = &attrDefaults_.implied;
+    const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
       defType = dflt ? &attrDefaults_.fixed : &attrDefaults_.required;
     declHandler_->attributeDecl(SA::construct_from_utf8(elname), 
-- 
2.43.0


From 305c17d0913bda6b2abf649bc68bc15e31c5540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 035/106] fix: expat reader releases element content models

---
 include/SAX/wrappers/saxexpat.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index fd857d6..3544605 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -759,6 +759,13 @@ template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::elementDeclaration(const XML_Char* name,
                                          const XML_Content* model)
 {
+  // the model is ours to release
+  struct Model 
+  { 
+    XML_Parser parser; XML_Content* model; 
+    ~Model() { XML_FreeContentModel(parser, model); } 
+  } owner = { parser_, const_cast<XML_Content*>(model) };
+
   if(!declHandler_)
     return;
 
-- 
2.43.0


From d327cd5dd8895fff9b33ed3f041c86417ea67487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:36 +0000
Subject: [PATCH 036/106] fix: mixed content models list every alternative

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 3544605..fb0537f 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -860,7 +860,7 @@ struct XML_cp {
 
     for(unsigned int i = 0; i < model->numchildren; ++i)
     {
-      if(i != 0)
+      if(i != 0 || model->type == XML_CTYPE_MIXED)
         os << concatenator;
       convertXML_Content(os, &(model->children[i]), true); 
     } // for ... 
-- 
2.43.0


From 8804119f0b9af2ee60f8f49ca6fe9764989e156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:33 +0000
Subject: [PATCH 037/106] fix: libxml2 reader detects the encoding of every
 document it parses

---
 include/SAX/wrappers/saxlibxml2.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 1974074..61e2fce 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -417,6 +417,7 @@ void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
     ~ResetOnExit()
     {
       xmlCtxtResetPush(wrapper_.context_, 0, 0, 0, 0);
+      wrapper_.context_->charset = XML_CHAR_ENCODING_NONE; // as it was, so the next document's encoding is detected
       wrapper_.parsing_ = false;
     } // ~ResetOnExit
     libxml2_wrapper& wrapper_;
-- 
2.43.0


From f53a17272bc3b855924b3d0a929a572af8d114e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:19 +0000
Subject: [PATCH 038/106] fix: characters beyond the BMP survive the Xerces
 reader

---
 include/SAX/wrappers/saxxerces.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxxerces.hpp b/include/SAX/wrappers/saxxerces.hpp
index 3750ac7..eb674f0 100644
--- a/include/SAX/wrappers/saxxerces.hpp
+++ b/include/SAX/wrappers/saxxerces.hpp
@@ -202,8 +202,20 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
           if(str && length)
           {
             std::vector<wchar_t> buffer;
-            std::copy(str, str+length, inserter(buffer, buffer.begin()));
-            return base::construct_from_utf16(&buffer[0], length);
+            for(const XMLCh* end = str+length; str != end; ++str)
+            {
+              if((sizeof(wchar_t) > sizeof(XMLCh)) && (str+1 != end) && 
+                 ((str[0] & 0xFC00) == 0xD800) && ((str[1] & 0xFC00) == 0xDC00))
+              {
+                // where a wchar_t holds a whole character, so it should 
+                const unsigned long high = str[0] & 0x3FF;
+                const unsigned long low = *++str & 0x3FF;
+                buffer.push_back(static_cast<wchar_t>(0x10000 + (high << 10) + low));
+              } // if ...
+              else
+                buffer.push_back(*str);
+            } // for ...
+            return base::construct_from_utf16(&buffer[0], static_cast<int>(buffer.size()));
           }
           else
             return string_type();
-- 
2.43.0


From 3924f3d525d9c20a6877c0576486feac55ee86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 039/106] fix: exceptions from handlers no longer pass through
 expat

---
 include/SAX/wrappers/saxexpat.hpp | 33 +++++++++++++++++++-
 src/SAX/wrappers/saxexpat.cpp     | 51 ++++++++++++++++++++-----------
 2 files changed, 66 insertions(+), 18 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index fb0537f..285a4eb 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -24,6 +24,7 @@
 #include <typeinfo>
 #include <map>
 #include <memory>
+#include <exception>
 #include <Arabica/getparam.hpp>
 
 namespace Arabica
@@ -86,8 +87,21 @@ int ewim_externalEntityRefHandler(XML_Parser parser,
 class expat2base
 {
 protected:
+  expat2base() : running_(0) { }
   virtual ~expat2base() { }
 
+  void caught()
+  {
+    if(hasCaught())
+      return;
+    exception_ = std::current_exception();
+    XML_StopParser(running_, XML_FALSE);
+  } // caught
+  bool hasCaught() const { return exception_ != nullptr; }
+
+  std::exception_ptr exception_;
+  XML_Parser running_;
+
 private:
   virtual void charHandler(const char* txt, int txtlen) = 0;
   virtual void startElement(const char* qName, const char** atts) = 0;
@@ -478,6 +492,7 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   namespaceContextCreated_.clear();
   declaredExternalEnts_.clear();
   fatalReported_ = false;
+  exception_ = nullptr;
 
   publicId_ = source.getPublicId();
   systemId_ = source.getSystemId();
@@ -493,6 +508,12 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   XML_SetParamEntityParsing(parser_, externalResolving_ ? XML_PARAM_ENTITY_PARSING_ALWAYS : XML_PARAM_ENTITY_PARSING_NEVER);
 
   do_parse(source, parser_);
+  if(hasCaught())
+  {
+    std::exception_ptr thrown;
+    std::swap(thrown, exception_);
+    std::rethrow_exception(thrown);
+  } // if ...
 
   if(contentHandler_)
     contentHandler_->endDocument();
@@ -501,6 +522,14 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 template<class string_type, class T0, class T1>
 bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Parser parser)  
 {
+  struct Running
+  {
+    Running(XML_Parser& running, XML_Parser parser) : running_(running), outer_(running) { running_ = parser; }
+    ~Running() { running_ = outer_; }
+    XML_Parser& running_;
+    XML_Parser outer_;
+  } running(this->running_, parser);
+
   InputSourceResolver is(source, string_adaptor());
   if(is.resolve() == 0)
   {
@@ -524,6 +553,8 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), done) == 0)
     {
       // error
+      if(hasCaught())
+        return false;
       reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
@@ -766,7 +797,7 @@ void expat_wrapper<string_type, T0, T1>::elementDeclaration(const XML_Char* name
     ~Model() { XML_FreeContentModel(parser, model); } 
   } owner = { parser_, const_cast<XML_Content*>(model) };
 
-  if(!declHandler_)
+  if(!declHandler_ || hasCaught())
     return;
 
   std::ostringstream os;
diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index 36a858f..c143b09 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -18,34 +18,41 @@ namespace expat_wrapper_impl_mumbojumbo
 
 ////////////////////////////////////////////////////////////////////////
 // expat callback function definition
+// Exceptions can't pass through expat, which is C, so they are put 
+// aside and rethrown once it has returned.
 void ewim_charHandler(void* data, const char* txt, int txtlen)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->charHandler(txt, txtlen);
+  try { if(!p->hasCaught()) p->charHandler(txt, txtlen); }
+  catch(...) { p->caught(); }
 } // charHandler
 
 void ewim_startElement(void* data, const char* qName, const char** atts)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->startElement(qName, atts);
+  try { if(!p->hasCaught()) p->startElement(qName, atts); }
+  catch(...) { p->caught(); }
 } // startElement
 
 void ewim_endElement(void* data, const char* qName)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->endElement(qName);
+  try { if(!p->hasCaught()) p->endElement(qName); }
+  catch(...) { p->caught(); }
 } // endElement
 
 void ewim_processingInstruction(void* userData, const char* target, const char* data)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->processingInstruction(target, data);
+  try { if(!p->hasCaught()) p->processingInstruction(target, data); }
+  catch(...) { p->caught(); }
 } // processingInstruction
 
 void ewim_elementDeclaration(void* userData, const XML_Char* name, XML_Content* model)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->elementDeclaration(name, model);
+  try { p->elementDeclaration(name, model); }
+  catch(...) { p->caught(); }
 } // elementDeclaration
 
 void ewim_attListDeclaration(void* userData,
@@ -56,7 +63,8 @@ void ewim_attListDeclaration(void* userData,
 					              int isrequired)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->attListDeclaration(elname, attname, att_type, dflt, isrequired);
+  try { if(!p->hasCaught()) p->attListDeclaration(elname, attname, att_type, dflt, isrequired); }
+  catch(...) { p->caught(); }
 } // attListDeclaration
 
 void ewim_entityDeclaration(void* userData, 
@@ -70,9 +78,9 @@ void ewim_entityDeclaration(void* userData,
                       const XML_Char* notationName)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->entityDeclaration(entityName, is_parameter_entity, value, value_length,
-                       base, systemId, publicId, notationName);
-
+  try { if(!p->hasCaught()) p->entityDeclaration(entityName, is_parameter_entity, value, value_length,
+                       base, systemId, publicId, notationName); }
+  catch(...) { p->caught(); }
 } // entityDeclaration
 
 void ewim_notationDeclaration(void* userData,
@@ -82,7 +90,8 @@ void ewim_notationDeclaration(void* userData,
 					                const XML_Char* publicId)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->notationDeclaration(notationName, base, systemId, publicId);
+  try { if(!p->hasCaught()) p->notationDeclaration(notationName, base, systemId, publicId); }
+  catch(...) { p->caught(); }
 } // notationDeclHandler
 
 void ewim_startDoctypeDecl(void* userData,
@@ -92,37 +101,43 @@ void ewim_startDoctypeDecl(void* userData,
 					                 int has_internal_subset)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->startDoctypeDecl(doctypeName, sysid, pubid, has_internal_subset);
+  try { if(!p->hasCaught()) p->startDoctypeDecl(doctypeName, sysid, pubid, has_internal_subset); }
+  catch(...) { p->caught(); }
 } // startDoctypeDecl
 
 void ewim_endDoctypeDecl(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->endDoctypeDecl();
+  try { if(!p->hasCaught()) p->endDoctypeDecl(); }
+  catch(...) { p->caught(); }
 } // endDoctypeDecl
 
 void ewim_startCdataSection(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->startCdataSection();
+  try { if(!p->hasCaught()) p->startCdataSection(); }
+  catch(...) { p->caught(); }
 } // startCdatSection
 
 void ewim_endCdataSection(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->endCdataSection();
+  try { if(!p->hasCaught()) p->endCdataSection(); }
+  catch(...) { p->caught(); }
 } // endCdataSection
 
 void ewim_commentHandler(void* userData, const XML_Char* data)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->commentHandler(data);
+  try { if(!p->hasCaught()) p->commentHandler(data); }
+  catch(...) { p->caught(); }
 } // commentHandler
 
 void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int is_parameter_entity)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->skippedEntity(entityName, is_parameter_entity);
+  try { if(!p->hasCaught()) p->skippedEntity(entityName, is_parameter_entity); }
+  catch(...) { p->caught(); }
 } // skippedEntityHandler
 
 
@@ -133,7 +148,9 @@ int ewim_externalEntityRefHandler(XML_Parser parser,
                                   const XML_Char* publicId)
 {
   expat2base* p = reinterpret_cast<expat2base*>(XML_GetUserData(parser));
-  return p->externalEntityRefHandler(parser, context, base, systemId, publicId);
+  try { return p->externalEntityRefHandler(parser, context, base, systemId, publicId); }
+  catch(...) { p->caught(); }
+  return 0;
 } // externalEntityRefHandler
 
 } // namespace expat_wrapper_impl_mumbojumbo
-- 
2.43.0


From fd53cf4173bdc17b731b99b9d2c15ae86e3e6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:25 +0000
Subject: [PATCH 040/106] fix: no endEntity after a handler threw inside an
 external entity

---
 include/SAX/wrappers/saxexpat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 285a4eb..e77a903 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -1105,6 +1105,8 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
   std::unique_ptr<XML_ParserStruct, void(*)(XML_Parser)> externalParser(XML_ExternalEntityParserCreate(parser, context, 0), XML_ParserFree);
 
   bool ok = do_parse(source, externalParser.get());
+  if(hasCaught())
+    return 0;
 
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
-- 
2.43.0


From 3a32420da23eb82bec3ba67c1b7e1f37ee5afd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:54 +0000
Subject: [PATCH 041/106] fix: DOM Stream end tags match their start tags,
 prefixes in use are not redeclared

---
 include/DOM/io/Stream.hpp | 57 ++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index 467a502..2dd79da 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <algorithm>
 #include <map>
+#include <set>
 #include <text/UnicodeCharacters.hpp>
 #include <XML/escaper.hpp>
 
@@ -83,13 +84,16 @@ std::pair<bool, stringT> is_uri_declared(const std::vector<std::map<stringT, str
   return std::make_pair(false, stringT());
 } // is_uri_declared
 
+// used holds the prefixes which already mean something in this start tag
 template<class stringT, class string_adaptorT, class charT, class traitsT>
-void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
-                                const DOM::Node<stringT, string_adaptorT>& node, 
-                                std::vector<std::map<stringT, stringT> >* prefix_stack,
-				const bool is_attribute,
-				const long index)
+stringT check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
+                                   const DOM::Node<stringT, string_adaptorT>& node, 
+                                   std::vector<std::map<stringT, stringT> >* prefix_stack,
+                                   std::set<stringT>& used,
+                                   const bool is_attribute,
+                                   const long index)
 {
+  stringT name;
   std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
 
   stringT namespaceURI = node.getNamespaceURI();
@@ -104,6 +108,7 @@ void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream,
         prefix.second = node.getPrefix();
       while((is_attribute && string_adaptorT::empty(prefix.second)) ||
             (prefix.second == string_adaptorT::construct_from_utf8("xml")) ||
+            (used.find(prefix.second) != used.end()) ||
             (current.find(prefix.second) != current.end()))
       {
 	std::ostringstream os;
@@ -113,17 +118,26 @@ void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream,
       current[prefix.second] = namespaceURI;
     } // if ...
 
+    used.insert(prefix.second);
     if(!string_adaptorT::empty(prefix.second))
-      stream << prefix.second << Arabica::text::Unicode<charT>::COLON;
-    stream << node.getLocalName();
+    {
+      string_adaptorT::append(name, prefix.second);
+      string_adaptorT::append(name, string_adaptorT::construct_from_utf8(":"));
+    } // if ...
+    string_adaptorT::append(name, node.getLocalName());
   }
   else
   {
     // undo any default namespace in force
     if(!is_attribute && !string_adaptorT::empty(lookup_prefix<stringT, string_adaptorT>(prefix_stack, stringT())))
       current[stringT()] = stringT();
-    stream << node.getNodeName();
+    if(!is_attribute)
+      used.insert(stringT());
+    name = node.getNodeName();
   } // if ...
+
+  stream << name;
+  return name;
 } // check_and_output_node_name
 
 template<class stringT, class string_adaptorT, class charT>
@@ -159,7 +173,8 @@ bool compare_nodes_by_name(const DOM::Node<stringT, string_adaptorT>& lhs,
 
 template<class stringT, class string_adaptorT, class charT, class traitsT>
 int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
-                  const DOM::Node<stringT, string_adaptorT>& node)
+                  const DOM::Node<stringT, string_adaptorT>& node,
+                  stringT& name)
 {
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
@@ -189,7 +204,8 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
   std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
 
   // is element namespace URI declared?
-  check_and_output_node_name(stream, node, prefix_stack, false, index);
+  std::set<stringT> used;
+  name = check_and_output_node_name(stream, node, prefix_stack, used, false, index);
   
   const DOM::NamedNodeMap<stringT, string_adaptorT> attrs = node.getAttributes();
   std::vector<DOM::Node<stringT, string_adaptorT> > attrNodes;
@@ -207,7 +223,7 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
        isXmlns<stringT, string_adaptorT, charT>(attr.getPrefix()))
       continue;
     stream << UnicodeT::SPACE;
-    check_and_output_node_name(stream, attr, prefix_stack, true, index);
+    check_and_output_node_name(stream, attr, prefix_stack, used, true, index);
     stream  << UnicodeT::EQUALS_SIGN
             << UnicodeT::QUOTATION_MARK;
     stringT value = attr.getNodeValue();
@@ -239,18 +255,13 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
   return index;
 } // prefix_mapper
 
-template<class stringT, class string_adaptorT, class charT, class traitsT>
+template<class stringT, class charT, class traitsT>
 void prefix_mapper_pop(std::basic_ostream<charT, traitsT>& stream,
-                       const DOM::Node<stringT, string_adaptorT>& node,
-                       int index, 
-                       bool output)
+                       int index)
 {
   std::vector<std::map<stringT, stringT> >* prefix_stack = 
     static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
 
-  if(output)
-    check_and_output_node_name(stream, node, prefix_stack, false, index);
-
   prefix_stack->pop_back();
   if(prefix_stack->empty())
   {
@@ -278,21 +289,19 @@ void streamElement(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<s
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
   stream << UnicodeT::LESS_THAN_SIGN;
-  int index = StreamImpl::prefix_mapper(stream, node);
+  stringT name;
+  int index = StreamImpl::prefix_mapper(stream, node, name);
 
   if(node.hasChildNodes())
   {
     stream << UnicodeT::GREATER_THAN_SIGN;
     StreamImpl::streamChildren(stream, node);
     stream << UnicodeT::LESS_THAN_SIGN << UnicodeT::SLASH;
-    StreamImpl::prefix_mapper_pop(stream, node, index, true);
-    stream << UnicodeT::GREATER_THAN_SIGN;
+    stream << name << UnicodeT::GREATER_THAN_SIGN;
   }
   else
-  {
-    StreamImpl::prefix_mapper_pop(stream, node, index, false);
     stream << UnicodeT::SLASH << UnicodeT::GREATER_THAN_SIGN;
-  }
+  StreamImpl::prefix_mapper_pop<stringT>(stream, index);
 } // streamElement
 
 template<class charT, class traitsT>
-- 
2.43.0


From f92028d1ec8a4e6059172907601b02c9f0826230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 042/106] fix: XPath lexical structure

Whitespace was only accepted in some of the places the recommendation allows
it, operator names were recognised in the middle of longer names, and names
were limited to ASCII. Split expressions into tokens as section 3.7 defines
before parsing them.
---
 CMakeLists.txt                       |   1 +
 include/Makefile.am                  |   1 +
 include/XPath/impl/xpath_grammar.hpp |  14 +-
 include/XPath/impl/xpath_lexer.hpp   | 272 +++++++++++++++++++++++++++
 include/XPath/impl/xpath_parser.hpp  |  21 ++-
 5 files changed, 302 insertions(+), 7 deletions(-)
 create mode 100644 include/XPath/impl/xpath_lexer.hpp

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 21cff7b..d0aa38e 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -284,6 +284,7 @@ set(PUBLIC_HEADER_FILES
   include/XPath/impl/xpath_function_holder.hpp
   include/XPath/impl/xpath_function_resolver.hpp
   include/XPath/impl/xpath_grammar.hpp
+  include/XPath/impl/xpath_lexer.hpp
   include/XPath/impl/xpath_logical.hpp
   include/XPath/impl/xpath_match.hpp
   include/XPath/impl/xpath_match_rewrite.hpp
diff --git a/include/Makefile.am b/include/Makefile.am
index 32cc155..96db6ae 100644
--- a/include/Makefile.am
+++ b/include/Makefile.am
@@ -165,6 +165,7 @@ xpath_headers =	XPath/XPath.hpp \
 	XPath/impl/xpath_resolver_holder.hpp \
 	XPath/impl/xpath_arithmetic.hpp \
 	XPath/impl/xpath_grammar.hpp \
+	XPath/impl/xpath_lexer.hpp \
 	XPath/impl/xpath_expression_impl.hpp \
 	XPath/impl/xpath_logical.hpp \
 	XPath/impl/xpath_ast_ids.hpp \
diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index 1b42f10..d0a680f 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -27,6 +27,13 @@ namespace XPath
 namespace impl
 {
 
+// any character (or part of a character) beyond ASCII
+struct beyond_ascii_parser : public boost::spirit::char_parser<beyond_ascii_parser>
+{
+  template<typename CharT>
+  bool test(CharT c) const { return (c < CharT(0)) || (c > CharT(0x7F)); }
+}; // beyond_ascii_parser
+
 template<typename ScannerT>
 struct xpath_grammar_definition
 {
@@ -139,13 +146,14 @@ struct xpath_grammar_definition
 			          | ProcessingInstruction
 			          | Node;
 
-    // These aren't correct to spec yet :)
+    // These are looser than the spec, but names and whitespace have
+    // already been checked by ExprLexer
     S = *space_p;
     QName = !(Prefix >> discard_node_d[ch_p(':')]) >> LocalPart;
     Prefix = NCName;
     LocalPart = NCName;
-    NCName = token_node_d[(alpha_p | '_') >> *NCNameChar];
-    NCNameChar = alpha_p | digit_p | '.' | '-' | '_';
+    NCName = token_node_d[(alpha_p | '_' | beyond_ascii_parser()) >> *NCNameChar];
+    NCNameChar = alpha_p | digit_p | '.' | '-' | '_' | beyond_ascii_parser();
 
     // things not defined in the spec, but which are just kind of handy :)
     Slash = ch_p('/');
diff --git a/include/XPath/impl/xpath_lexer.hpp b/include/XPath/impl/xpath_lexer.hpp
new file mode 100644
index 0000000..636f4c8
--- /dev/null
+++ b/include/XPath/impl/xpath_lexer.hpp
@@ -0,0 +1,272 @@
+#ifndef ARABICA_XPATHIC_XPATH_LEXER_HPP
+#define ARABICA_XPATHIC_XPATH_LEXER_HPP
+
+#include <string>
+#include <XML/XMLCharacterClasses.hpp>
+
+namespace Arabica
+{
+namespace XPath
+{
+namespace impl
+{
+
+// XPath 1.0, section 3.7 - Lexical Structure
+//
+// An expression is a sequence of ExprTokens, which may have whitespace between
+// them but never inside them.  Whether a name is an operator, and whether * is
+// the multiply operator, depends on the preceding token.
+//
+// normalize takes the tokens out of an expression, and puts them back
+// together with only the whitespace needed to keep them apart.  It returns
+// false if the expression can not be split into tokens.
+template<class string_type, class string_adaptor>
+class ExprLexer
+{
+  typedef typename string_adaptor::value_type char_type;
+  typedef typename string_adaptor::const_iterator const_iterator;
+  typedef std::basic_string<char_type> token_type;
+
+public:
+  static bool normalize_expr(const string_type& str, string_type& result)
+  {
+    ExprLexer lexer(str);
+    if(!lexer.expr(false) || (lexer.pos_ != lexer.str_.length()))
+      return false;
+    result = string_adaptor::construct(lexer.out_);
+    return true;
+  } // normalize_expr
+
+  static bool normalize_attribute_value_template(const string_type& str, string_type& result)
+  {
+    ExprLexer lexer(str);
+    if(!lexer.attribute_value_template())
+      return false;
+    result = string_adaptor::construct(lexer.out_);
+    return true;
+  } // normalize_attribute_value_template
+
+private:
+  ExprLexer(const string_type& str) :
+    str_(string_adaptor::begin(str), string_adaptor::end(str)),
+    pos_(0)
+  {
+  } // ExprLexer
+
+  bool attribute_value_template()
+  {
+    while(pos_ != str_.length())
+    {
+      if(!at('{') || at('{', 1))
+      {
+        const size_t count = at('{') ? 2 : 1;
+        out_.append(str_, pos_, count);
+        pos_ += count;
+        continue;
+      } // if ...
+
+      out_ += str_[pos_++];
+      if(!expr(true) || !at('}'))
+        return false;
+      out_ += str_[pos_++];
+    } // while ...
+    return true;
+  } // attribute_value_template
+
+  bool expr(bool embedded)
+  {
+    bool afterOperand = false;
+
+    for( ; ; )
+    {
+      const bool gap = skip_whitespace();
+      if((pos_ == str_.length()) || (embedded && at('}')))
+        return true;
+
+      const size_t length = token_length(afterOperand);
+      if(length == 0)
+        return false;
+
+      if(gap && would_join(out_[out_.length()-1], str_[pos_]))
+        out_ += char_type(' ');
+      out_.append(str_, pos_, length);
+      pos_ += length;
+    } // for ...
+  } // expr
+
+  // length of the token at the current position, or 0 if there isn't one
+  size_t token_length(bool& afterOperand) const
+  {
+    const bool operatorExpected = afterOperand;
+
+    afterOperand = true;
+    if(at(')') || at(']'))
+      return 1;
+    if(at('"') || at('\''))
+    {
+      const size_t close = str_.find(str_[pos_], pos_+1);
+      return (close != token_type::npos) ? (close - pos_ + 1) : 0;
+    } // if ...
+    if(at('$'))
+    {
+      const size_t name = qname_length(pos_+1, false);
+      return (name != 0) ? (name + 1) : 0;
+    } // if ...
+    if(is_digit(pos_) || (at('.') && is_digit(pos_+1)))
+      return number_length();
+    if(at('.'))
+      return at('.', 1) ? 2 : 1;
+    if(at('*') && !operatorExpected)
+      return 1;
+    if(!operatorExpected)
+    {
+      const size_t name = qname_length(pos_, true);
+      if(name != 0)
+        return name;
+    } // if ...
+
+    afterOperand = false;
+    if(at('(') || at('[') || at(',') || at('@') ||
+       at('|') || at('+') || at('-') || at('=') || at('*'))
+      return 1;
+    if(at('/'))
+      return at('/', 1) ? 2 : 1;
+    if(at('<') || at('>'))
+      return at('=', 1) ? 2 : 1;
+    if(at('!'))
+      return at('=', 1) ? 2 : 0;
+    if(at(':'))
+      return at(':', 1) ? 2 : 0;
+
+    return operator_name_length();
+  } // token_length
+
+  size_t number_length() const
+  {
+    size_t p = pos_;
+    while(is_digit(p))
+      ++p;
+    if((p < str_.length()) && (str_[p] == char_type('.')))
+      for(++p; is_digit(p); )
+        ++p;
+    return p - pos_;
+  } // number_length
+
+  size_t operator_name_length() const
+  {
+    const size_t length = ncname_length(pos_);
+    const token_type name = str_.substr(pos_, length);
+    const char* const operators[] = { "and", "or", "mod", "div" };
+    for(size_t i = 0; i != 4; ++i)
+    {
+      const std::string op(operators[i]);
+      if(name == token_type(op.begin(), op.end()))
+        return length;
+    } // for ...
+    return 0;
+  } // operator_name_length
+
+  size_t qname_length(size_t start, bool star) const
+  {
+    const size_t prefix = ncname_length(start);
+    const size_t colon = start + prefix;
+    if((prefix == 0) || (colon >= str_.length()) || (str_[colon] != char_type(':')))
+      return prefix;
+    if(star && (colon+1 < str_.length()) && (str_[colon+1] == char_type('*')))
+      return prefix + 2;
+    const size_t local = ncname_length(colon+1);
+    return (local != 0) ? (prefix + 1 + local) : prefix;
+  } // qname_length
+
+  size_t ncname_length(size_t start) const
+  {
+    size_t p = start;
+    while(p < str_.length())
+    {
+      size_t count = 0;
+      const wchar_t c = character(p, count);
+      if(count == 0)
+        break;
+      if(!((p == start) ? (Arabica::XML::is_letter(c) || (c == '_')) : Arabica::XML::is_ncname_char(c)))
+        break;
+      p += count;
+    } // while ...
+    return p - start;
+  } // ncname_length
+
+  // The character at p, and how many chars it occupies.  In a string of char,
+  // characters beyond ASCII are UTF-8 encoded.
+  wchar_t character(size_t p, size_t& count) const
+  {
+    count = 1;
+    if((sizeof(char_type) != sizeof(char)) || (static_cast<unsigned char>(str_[p]) < 0x80))
+      return static_cast<wchar_t>(str_[p]);
+
+    const unsigned char lead = static_cast<unsigned char>(str_[p]);
+    const size_t length = (lead >= 0xE0) ? 3 : 2;
+    count = 0;
+    if((lead < 0xC2) || (lead > 0xEF) || (p + length > str_.length()))
+      return 0;
+    unsigned int c = lead & ((length == 3) ? 0x0F : 0x1F);
+    for(size_t i = 1; i != length; ++i)
+    {
+      const unsigned char trail = static_cast<unsigned char>(str_[p+i]);
+      if((trail & 0xC0) != 0x80)
+        return 0;
+      c = (c << 6) | (trail & 0x3F);
+    } // for ...
+    if((length == 3) && (c < 0x800))
+      return 0;
+    count = length;
+    return static_cast<wchar_t>(c);
+  } // character
+
+  bool skip_whitespace()
+  {
+    const size_t start = pos_;
+    while((pos_ != str_.length()) && Arabica::XML::is_space(str_[pos_]))
+      ++pos_;
+    return (pos_ != start) && !out_.empty();
+  } // skip_whitespace
+
+  bool at(char c, size_t offset = 0) const
+  {
+    return (pos_ + offset < str_.length()) && (str_[pos_ + offset] == char_type(c));
+  } // at
+
+  bool is_digit(size_t p) const
+  {
+    return (p < str_.length()) && (str_[p] >= char_type('0')) && (str_[p] <= char_type('9'));
+  } // is_digit
+
+  static bool would_join(char_type last, char_type next)
+  {
+    if((last == char_type('/')) || (last == char_type(':')))
+      return last == next;
+    if((last == char_type('<')) || (last == char_type('>')))
+      return next == char_type('=');
+    return name_like(last) && name_like(next);
+  } // would_join
+
+  static bool name_like(char_type c)
+  {
+    return (c == char_type('-')) || (c == char_type('.')) || (c == char_type('_')) ||
+           ((c >= char_type('0')) && (c <= char_type('9'))) ||
+           ((c >= char_type('A')) && (c <= char_type('Z'))) ||
+           ((c >= char_type('a')) && (c <= char_type('z'))) ||
+           (c < char_type(0)) || (c > char_type(0x7E));
+  } // name_like
+
+  const token_type str_;
+  size_t pos_;
+  token_type out_;
+
+  ExprLexer(const ExprLexer&);
+  ExprLexer& operator=(const ExprLexer&);
+}; // class ExprLexer
+
+} // namespace impl
+} // namespace XPath
+} // namespace Arabica
+
+#endif
diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 45e3319..1499340 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -20,6 +20,7 @@
 #include "xpath_expression.hpp"
 #include "xpath_ast.hpp"
 #include "xpath_grammar.hpp"
+#include "xpath_lexer.hpp"
 #include "xpath_namespace_context.hpp"
 #include "xpath_function_resolver.hpp"
 #include "xpath_variable_resolver.hpp"
@@ -170,25 +171,37 @@ private:
 
   typename impl::types<string_adaptor>::tree_info_t parse_xpath(const string_type& str) const
   {
-    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
+    string_type expr;
+    if(!impl::ExprLexer<string_type, string_adaptor>::normalize_expr(str, expr))
+      throw SyntaxException(string_adaptor::asStdString(str));
+    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(expr), last = string_adaptor::end(expr);
     return ast_parse(first, last, xpathg_);
   } // parse_xpath
 
   typename impl::types<string_adaptor>::tree_info_t parse_xpath_expr(const string_type& str) const
   {
-    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
+    string_type expr;
+    if(!impl::ExprLexer<string_type, string_adaptor>::normalize_expr(str, expr))
+      throw SyntaxException(string_adaptor::asStdString(str));
+    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(expr), last = string_adaptor::end(expr);
     return ast_parse(first, last, xpathge_);
   } // parse_xpath_expr
 
   typename impl::types<string_adaptor>::tree_info_t parse_xpath_match(const string_type& str) const
   {
-    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
+    string_type expr;
+    if(!impl::ExprLexer<string_type, string_adaptor>::normalize_expr(str, expr))
+      throw SyntaxException(string_adaptor::asStdString(str));
+    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(expr), last = string_adaptor::end(expr);
     return ast_parse(first, last, xpathgm_);
   } // parse_xpath_match
 
   typename impl::types<string_adaptor>::tree_info_t parse_xpath_attribute_value_template(const string_type& str) const
   {
-    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
+    string_type expr;
+    if(!impl::ExprLexer<string_type, string_adaptor>::normalize_attribute_value_template(str, expr))
+      throw SyntaxException(string_adaptor::asStdString(str));
+    typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(expr), last = string_adaptor::end(expr);
     return ast_parse(first, last, xpathavt_);
   } // parse_xpath_attribute_value_template
 
-- 
2.43.0


From b9e5577ad982d53920edcee18e575d146c2618e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 043/106] fix: XPath operator names directly followed by an
 operand, whitespace after a unary minus

---
 include/XPath/impl/xpath_grammar.hpp | 2 +-
 include/XPath/impl/xpath_lexer.hpp   | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index d0a680f..d71c3a4 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -123,7 +123,7 @@ struct xpath_grammar_definition
     // [25], [26], [27]
     AdditiveExpr = MultiplicativeExpr >> *((PlusOperator | MinusOperator) >> MultiplicativeExpr);
     MultiplicativeExpr = UnaryExpr >> *((MultiplyOperator | DivOperator | ModOperator) >> UnaryExpr);
-    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator) >> UnionExpr;
+    UnaryExpr = discard_node_d[S] >> *(UnaryMinusOperator >> discard_node_d[S]) >> UnionExpr;
 
     // [28] ExprToken not actually used
 
diff --git a/include/XPath/impl/xpath_lexer.hpp b/include/XPath/impl/xpath_lexer.hpp
index 636f4c8..1aeed35 100644
--- a/include/XPath/impl/xpath_lexer.hpp
+++ b/include/XPath/impl/xpath_lexer.hpp
@@ -152,16 +152,17 @@ private:
     return p - pos_;
   } // number_length
 
+  // Strictly speaking the name should be exactly an operator, but there is
+  // nothing else it could be and so 6div2 is accepted too
   size_t operator_name_length() const
   {
-    const size_t length = ncname_length(pos_);
-    const token_type name = str_.substr(pos_, length);
+    const token_type name = str_.substr(pos_, ncname_length(pos_));
     const char* const operators[] = { "and", "or", "mod", "div" };
     for(size_t i = 0; i != 4; ++i)
     {
       const std::string op(operators[i]);
-      if(name == token_type(op.begin(), op.end()))
-        return length;
+      if(name.substr(0, op.length()) == token_type(op.begin(), op.end()))
+        return op.length();
     } // for ...
     return 0;
   } // operator_name_length
-- 
2.43.0


From b9ad7ad0b330d664a23f56c6113d9f7ef4b090e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 044/106] fix: XPath axes and document order, number
 conversions, comparisons and core functions

---
 include/XPath/impl/xpath_arithmetic.hpp      |   7 +-
 include/XPath/impl/xpath_axis_enumerator.hpp | 236 +++++++++---------
 include/XPath/impl/xpath_function.hpp        |  28 ++-
 include/XPath/impl/xpath_node_test.hpp       |  53 ++++-
 include/XPath/impl/xpath_object.hpp          | 238 ++++++++++++++-----
 include/XPath/impl/xpath_union.hpp           |   8 +-
 include/XPath/impl/xpath_value.hpp           |   8 +-
 7 files changed, 369 insertions(+), 209 deletions(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..1863dd7 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 #define ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 
+#include <cmath>
 #include <functional>
 #include "xpath_value.hpp"
 #include "xpath_expression_impl.hpp"
@@ -65,10 +66,8 @@ public:
 struct NaN_aware_modulus
 {	
   double operator()(const double& lhs, const double& rhs) const
-	{	// apply operator% to operands 
-    if(isNaN(lhs) || isNaN(rhs)) 
-      return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+	{	// the remainder of a truncating division
+    return std::fmod(lhs, rhs);
 	}
 }; // NaN_aware_modulus
 
diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..c9817bb 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -4,6 +4,8 @@
 #include <DOM/Node.hpp>
 #include <DOM/Document.hpp>
 #include <DOM/NamedNodeMap.hpp>
+#include <map>
+#include <vector>
 #include "xpath_namespace_node.hpp"
 #include "xpath_object.hpp"
 
@@ -130,37 +132,61 @@ protected:
   void set(const RawNodeT current) { current_ = current; }
   void end() { current_ = 0; }
 
+  // next node in document order, staying within origin
+  // if origin is null goes on to the end of the tree
   static RawNodeT walkDown(const RawNodeT context, 
                            const RawNodeT origin)
   {
-    if(context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
-      return 0;
-
-    RawNodeT next = context->getFirstChild();
-    if((next == 0) && (context == origin)) // node with no children
-      return 0;
-
+    RawNodeT next = findFirstChild(context);
     if(next != 0)
       return next;
 
-    next = findNextSibling(context);
-    if(next != 0)
-      return next;
-            
-    RawNodeT parent = context->getParentNode();
-    while(parent != origin && next == 0)
+    return walkAcross(context, origin);
+  } // walkDown
+
+  // as walkDown, but skipping the descendants of context
+  static RawNodeT walkAcross(const RawNodeT context,
+                             const RawNodeT origin)
+  {
+    if(hasOwner(context))
+      return 0;
+
+    for(RawNodeT node = context; (node != 0) && (node != origin); node = node->getParentNode())
     {
-      next = parent->getNextSibling();
-      parent = parent->getParentNode();
-    } // while ...
+      RawNodeT next = findNextSibling(node);
+      if(next != 0)
+        return next;
+    } // for ...
 
-    return next;
-  } // walkDown
+    return 0;
+  } // walkAcross
+
+  // attributes and namespaces have a parent, but aren't children
+  static bool hasOwner(DOM::Node_impl<string_type, string_adaptor> const* const node)
+  {
+    return (node->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE) ||
+           (node->getNodeType() == NAMESPACE_NODE_TYPE);
+  } // hasOwner
+
+  static RawNodeT findParent(DOM::Node_impl<string_type, string_adaptor> const* const node)
+  {
+    if(node->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
+      return node->getParentNode();
+    return (dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(node))->getOwnerElement();
+  } // findParent
+
+  static RawNodeT findFirstChild(const RawNodeT node)
+  {
+    return !hasOwner(node) ? skipDoctype(node->getFirstChild()) : 0;
+  } // findFirstChild
 
   static RawNodeT findNextSibling(const RawNodeT node)
   {
+    if(hasOwner(node))
+      return 0;
+
     if(!nodeIsText(node))
-      return node->getNextSibling();
+      return skipDoctype(node->getNextSibling());
 
     RawNodeT next = node->getNextSibling();
     while((next != 0) && nodeIsText(next))
@@ -170,7 +196,16 @@ protected:
 
   static RawNodeT findPreviousSibling(const RawNodeT node)
   {
+    if(hasOwner(node))
+      return 0;
+
     RawNodeT prev = node->getPreviousSibling();
+    // the rest of the text we're in isn't before it
+    while((prev != 0) && nodeIsText(node) && nodeIsText(prev))
+      prev = prev->getPreviousSibling();
+    // the document type isn't part of the XPath data model
+    if((prev != 0) && (prev->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE))
+      prev = prev->getPreviousSibling();
 
     if((prev == 0) || (!nodeIsText(prev)))
       return prev;
@@ -186,6 +221,13 @@ protected:
   } // findPreviousSibling
 
 private:
+  static RawNodeT skipDoctype(const RawNodeT node)
+  {
+    if((node != 0) && (node->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE))
+      return node->getNextSibling();
+    return node;
+  } // skipDoctype
+
   static bool nodeIsText(const RawNodeT node)
   {
     return (node->getNodeType() == DOM::Node_base::TEXT_NODE) ||
@@ -211,10 +253,7 @@ public:
     if(context == 0)
       return;
 
-    if(context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      BaseT::set(context->getParentNode());
-    else
-      BaseT::set((dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context))->getOwnerElement());
+    BaseT::set(BaseT::findParent(context));
   } // AncestorAxisWalker
 
   virtual void advance()
@@ -246,10 +285,7 @@ public:
     if(BaseT::get() == 0)
       return;
 
-    if(BaseT::get()->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      BaseT::set(BaseT::get()->getParentNode());
-    else
-      BaseT::set((dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(BaseT::get()))->getOwnerElement());
+    BaseT::set(BaseT::findParent(BaseT::get()));
   } // advance
   virtual AxisWalker<string_type, string_adaptor>* clone() const { return new AncestorOrSelfAxisWalker(*this); }
 
@@ -298,19 +334,17 @@ private:
 
   void set_next() 
   {
-    if(index_ == count_)
-    {
-      BaseT::end();
-      return;
-    } // if ...
-
-    RawNodeT a;
-    do
+    while(index_ != count_)
     {
-      a = attrs_->item(index_++);
-    } while ((a != 0) && (a->getNamespaceURI() == string_adaptor::construct_from_utf8("http://www.w3.org/2000/xmlns/")));
+      RawNodeT a = attrs_->item(index_++);
+      if(a->getNamespaceURI() != string_adaptor::construct_from_utf8("http://www.w3.org/2000/xmlns/"))
+      {
+        BaseT::set(a);
+        return;
+      } // if ...
+    } // while ...
 
-    BaseT::set(a);
+    BaseT::end();
   } // set_next
 }; // class AttributeAxisEnumerator
 
@@ -325,7 +359,7 @@ public:
   ChildAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true)
   {
     if(context != 0)
-      BaseT::set(context->getFirstChild());
+      BaseT::set(BaseT::findFirstChild(context));
   } // ChildAxisWalker
 
   virtual void advance() 
@@ -350,36 +384,19 @@ public:
   DescendantAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true),
       origin_(context)
   {
-    if((context != 0) && (context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
-      BaseT::set(context->getFirstChild());
+    if(context != 0)
+      BaseT::set(BaseT::findFirstChild(context));
   } // DescendantAxisWalker
 
   virtual void advance()
   {
-    BaseT::set(nextDescendant());
+    if(BaseT::get() != 0)
+      BaseT::set(BaseT::walkDown(BaseT::get(), origin_));
   } // advance
 
   virtual AxisWalker<string_type, string_adaptor>* clone() const { return new DescendantAxisWalker(*this); }
 
 private:
-  RawNodeT nextDescendant()
-  {
-    RawNodeT next = BaseT::get()->getFirstChild();
-    if(next == 0)
-      next = BaseT::findNextSibling(BaseT::get());
-    if(next != 0)
-      return next;
-          
-    RawNodeT parent = BaseT::get()->getParentNode();
-    while(parent != origin_ && next == 0)
-    {
-      next = parent->getNextSibling();
-      parent = parent->getParentNode();
-    } // while ...
-
-    return next;
-  } // nextDescendant
-
   DescendantAxisWalker(const DescendantAxisWalker& rhs) : AxisWalker<string_type, string_adaptor>(rhs), origin_(rhs.origin_) { }
   const RawNodeT origin_;
 }; // class DescendantAxisWalker
@@ -401,7 +418,8 @@ public:
 
   virtual void advance()
   {
-    BaseT::set(BaseT::walkDown(BaseT::get(), origin_));
+    if(BaseT::get() != 0)
+      BaseT::set(BaseT::walkDown(BaseT::get(), origin_));
   } // advance
 
   virtual AxisWalker<string_type, string_adaptor>* clone() const { return new DescendantOrSelfAxisWalker(*this); }
@@ -426,34 +444,24 @@ public:
 
   virtual void advance()
   {
-    BaseT::set(BaseT::walkDown(BaseT::get(), BaseT::get()->getOwnerDocument()));
+    if(BaseT::get() != 0)
+      BaseT::set(BaseT::walkDown(BaseT::get(), 0));
   } // advance
   virtual AxisWalker<string_type, string_adaptor>* clone() const { return new FollowingAxisWalker(*this); }
 
 private:
   RawNodeT firstFollowing(const RawNodeT context) const
   {
-    if(context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
-    {
-      RawNodeT owner = dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context)->getOwnerElement();
-      if(owner->hasChildNodes())
-        return owner->getFirstChild();
-      return firstFollowing(owner);
-    } // if attribute
-
-    RawNodeT next = BaseT::findNextSibling(context);
+    if(context == 0)
+      return 0;
 
-    if(next != 0)
-      return next;
-          
-    RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
+    if(BaseT::hasOwner(context))
     {
-      next = parent->getNextSibling();
-      parent = parent->getParentNode();
-    } // while ...
+      RawNodeT owner = BaseT::findParent(context);
+      return (owner != 0) ? BaseT::walkDown(owner, 0) : 0;
+    } // if ...
 
-    return next;
+    return BaseT::walkAcross(context, 0);
   } // firstFollowing
 
   FollowingAxisWalker(const FollowingAxisWalker& rhs) : AxisWalker<string_type, string_adaptor>(rhs) { }
@@ -496,37 +504,45 @@ public:
     xmlns_prefix_(string_adaptor::construct_from_utf8("xmlns")),
     index_(0)
   {
-    RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      push_back(context, 
-                string_adaptor::construct_from_utf8("xml"), 
-                string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+    if((context == 0) || (context->getNodeType() != DOM::Node_base::ELEMENT_NODE))
+      return;
+
+    const string_type xml_prefix = string_adaptor::construct_from_utf8("xml");
+    std::map<string_type, string_type> namespaces;
+    for(RawNodeT current = context;
+        (current != 0) && (current->getNodeType() == DOM::Node_base::ELEMENT_NODE);
+        current = current->getParentNode())
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
+        // the nearest declaration is the one in scope, and inserting doesn't replace it
         RawNodeT attr = current->getAttributes()->item(a);
         if(attr->getPrefix() == xmlns_prefix_)
-          push_back(context, attr->getLocalName(), attr->getNodeValue());
+          namespaces.insert(std::make_pair(attr->getLocalName(), attr->getNodeValue()));
         if(attr->getNodeName() == xmlns_prefix_)
-          push_back(context, string_adaptor::empty_string(), attr->getNodeValue());
+          namespaces.insert(std::make_pair(string_adaptor::empty_string(), attr->getNodeValue()));
       } // for ...
-      current = current->getParentNode();
-    } // while
-    list_.push_back(0);
+    } // for ...
+
+    push_back(context, xml_prefix, string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
+    for(typename std::map<string_type, string_type>::const_iterator n = namespaces.begin(), ne = namespaces.end(); n != ne; ++n)
+      if(!string_adaptor::empty(n->second) && (n->first != xml_prefix)) // no value means undeclared
+        push_back(context, n->first, n->second);
     BaseT::set(list_[index_]);
   } // NamespaceAxisWalker
 
   virtual ~NamespaceAxisWalker()
   {
-    for(int i = 0; list_[i] != 0; ++i)
+    for(size_t i = 0; i != list_.size(); ++i)
       list_[i]->releaseRef();
   } // ~NamespaceAxisWalker
 
   virtual void advance()
   {
-    if(index_ != list_.size())
-      BaseT::set(list_[++index_]);
+    if(BaseT::get() == 0)
+      return;
+    ++index_;
+    BaseT::set((index_ != list_.size()) ? list_[index_] : 0);
   } // advance
   
   virtual BaseT* clone() const { return new NamespaceAxisWalker(*this); }
@@ -539,7 +555,16 @@ private:
     list_.push_back(node);
   } // push_back
 
-  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs) { }
+  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) :
+    BaseT(rhs),
+    list_(rhs.list_),
+    xmlns_prefix_(rhs.xmlns_prefix_),
+    index_(rhs.index_)
+  {
+    for(size_t i = 0; i != list_.size(); ++i)
+      list_[i]->addRef();
+  } // NamespaceAxisWalker
+
   std::vector<RawNodeT> list_;
   const string_type xmlns_prefix_;
   unsigned int index_;
@@ -558,10 +583,7 @@ public:
     if(context == 0)
       return;
 
-    if(context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      BaseT::set(context->getParentNode());
-    else
-      BaseT::set((dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context))->getOwnerElement());
+    BaseT::set(BaseT::findParent(context));
   } // ParentAxisWalker
 
   virtual void advance()
@@ -582,17 +604,17 @@ class PrecedingAxisWalker : public AxisWalker<string_type, string_adaptor>
 public:
   typedef DOM::Node_impl<string_type, string_adaptor>* RawNodeT;
   
-  PrecedingAxisWalker(const RawNodeT context) : BaseT(false)
+  PrecedingAxisWalker(const RawNodeT context) : BaseT(false), nextAncestor_(0)
   {
-    if(context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      firstPreceding(context);
-    else
-      firstPreceding((dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context))->getOwnerElement());
+    RawNodeT start = ((context != 0) && BaseT::hasOwner(context)) ? BaseT::findParent(context) : context;
+    if(start != 0)
+      firstPreceding(start);
   } // PrecedingAxisWalker
 
   virtual void advance()
   {
-    BaseT::set(previousInDocument(BaseT::get()));
+    if(BaseT::get() != 0)
+      BaseT::set(previousInDocument(BaseT::get()));
   } // advance
   virtual BaseT* clone() const { return new PrecedingAxisWalker(*this); }
 
@@ -630,8 +652,8 @@ private:
       return context;
 
     RawNodeT c = context->getFirstChild();
-    while(c->getNextSibling() != 0)
-      c = c->getNextSibling();
+    for(RawNodeT next = BaseT::findNextSibling(c); next != 0; next = BaseT::findNextSibling(c))
+      c = next;
 
     return getLastDescendant(c);
   } // getLastDescendant
diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 7c261d9..be27a99 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -69,7 +69,10 @@ protected:
                                     const DOM::Node<string_type, string_adaptor>& context,
                                     const ExecutionContext<string_type, string_adaptor>& executionContext) const
   {
-    return args_[index].evaluateAsNodeSet(context, executionContext);
+    XPathValue<string_type, string_adaptor> value = args_[index].evaluate(context, executionContext);
+    if(value.type() != NODE_SET)
+      throw RuntimeException("wrong type of argument to function.  The argument must be a node-set.");
+    return value.asNodeSet();
   } // argAsNodeSet
 
 private:
@@ -468,21 +471,22 @@ protected:
                                  const ExecutionContext<string_type, string_adaptor>& executionContext) const
   {
     string_type value = baseT::argAsString(0, context, executionContext);
-    if(string_adaptor::empty(value))
-      return string_adaptor::empty_string();
+    const double length = static_cast<double>(string_adaptor::length(value));
 
     double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext)) - 1;
-    double endAt = roundNumber((baseT::argCount() == 3 ? baseT::argAsNumber(2, context, executionContext) : Infinity)) + startAt;
-
-    if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)))
-      return string_adaptor::empty_string();
+    double endAt = length;
+    if(baseT::argCount() == 3)
+      endAt = startAt + roundNumber(baseT::argAsNumber(2, context, executionContext));
 
     if(startAt < 0)
       startAt = 0;
-    if((isInfinite(endAt)) || (endAt > string_adaptor::length(value)))
-      endAt = static_cast<double>(string_adaptor::length(value));
+    if(endAt > length)
+      endAt = length;
+
+    if(!(startAt < endAt)) // one or other might be NaN
+      return string_adaptor::empty_string();
 
-    return string_adaptor::substr(value, static_cast<int>(startAt), static_cast<int>(endAt - startAt));
+    return string_adaptor::substr(value, static_cast<size_t>(startAt), static_cast<size_t>(endAt - startAt));
   } // evaluate
 }; // SubstringFn
 
@@ -543,12 +547,10 @@ protected:
     {
       size_t r = string_adaptor::find(from, *i);
       if(r == string_adaptor::npos())
-        ++p;
+        *p++ = *i;
       else if(r < string_adaptor::length(to))
         *p++ = *(string_adaptor::begin(to) + r);
     } // for ...
-    if(p != string_adaptor::end(str))
-      *p = 0;
 
 		return string_adaptor::construct(string_adaptor::begin(str), p);
   } // evaluate
diff --git a/include/XPath/impl/xpath_node_test.hpp b/include/XPath/impl/xpath_node_test.hpp
index a7de3a1..57d0422 100644
--- a/include/XPath/impl/xpath_node_test.hpp
+++ b/include/XPath/impl/xpath_node_test.hpp
@@ -63,8 +63,7 @@ public:
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    int type = node.getNodeType();
-    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
+    return (node.getNodeType() == DOM::Node_base::ELEMENT_NODE) && 
            (name_ == node.getNodeName()) &&
            (string_adaptor::empty(node.getNamespaceURI()));
   } // test
@@ -101,8 +100,7 @@ public:
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    int type = node.getNodeType();
-    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
+    return (node.getNodeType() == DOM::Node_base::ELEMENT_NODE) && 
            (name_ == node.getLocalName()) &&
            (uri_ == node.getNamespaceURI());
   } // test
@@ -140,9 +138,7 @@ public:
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    int type = node.getNodeType();
-    return (type == DOM::Node_base::ELEMENT_NODE ||
-            type == NAMESPACE_NODE_TYPE);
+    return node.getNodeType() == DOM::Node_base::ELEMENT_NODE;
   } // test
 }; // class StarNodeTest
 
@@ -164,6 +160,37 @@ private:
   string_type uri_;
 }; // clase QStarNodeTest
 
+// for the namespace axis, whose principal node type is namespace
+template<class string_type, class string_adaptor>
+class NamespaceNodeTest : public NodeTest<string_type, string_adaptor>
+{
+public:
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NamespaceNodeTest(); }
+
+  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+  {
+    return node.getNodeType() == NAMESPACE_NODE_TYPE;
+  } // test
+}; // class NamespaceNodeTest
+
+template<class string_type, class string_adaptor>
+class NamespaceNameNodeTest : public NamespaceNodeTest<string_type, string_adaptor>
+{
+  typedef NamespaceNodeTest<string_type, string_adaptor> baseT;
+public:
+  NamespaceNameNodeTest(const string_type& prefix) : baseT(), prefix_(prefix) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NamespaceNameNodeTest(prefix_); }
+
+  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+  {
+    return baseT::operator()(node) &&
+           (prefix_ == node.getLocalName());
+  } // test
+
+private:
+  string_type prefix_;
+}; // class NamespaceNameNodeTest
+
 template<class string_type, class string_adaptor>
 class TextNodeTest : public NodeTest<string_type, string_adaptor>
 {
@@ -235,22 +262,26 @@ template<class string_type, class string_adaptor>
 class ProcessingInstructionNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  ProcessingInstructionNodeTest() : target_() { }
-  ProcessingInstructionNodeTest(const string_type& target) : target_(target) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new ProcessingInstructionNodeTest(target_); }
+  ProcessingInstructionNodeTest() : any_target_(true), target_() { }
+  ProcessingInstructionNodeTest(const string_type& target) : any_target_(false), target_(target) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const 
+  { 
+    return any_target_ ? new ProcessingInstructionNodeTest() : new ProcessingInstructionNodeTest(target_); 
+  } // clone
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
     if(node.getNodeType() != DOM::Node_base::PROCESSING_INSTRUCTION_NODE)
       return false;
 
-    if(string_adaptor::empty(target_))
+    if(any_target_)
       return true;
 
     return node.getNodeName() == target_;
   } // test
 
 private:
+  bool any_target_;
   string_type target_;
 }; // ProcessingInstructionNodeTest
 
diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..bb0a212 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -12,8 +12,14 @@
 #include <math>
 #endif
 #include <cmath>
+#include <cstdlib>
+#include <iomanip>
+#include <locale>
+#include <set>
+#include <sstream>
 #include <Arabica/StringAdaptor.hpp>
-#include <text/normalize_whitespace.hpp>
+#include <XML/XMLCharacterClasses.hpp>
+#include <text/UnicodeCharacters.hpp>
 #include "xpath_axis_enumerator.hpp"
 
 namespace Arabica
@@ -54,6 +60,9 @@ unsigned int node_attribute_index(const DOM::Attr<string_type, string_adaptor>&
   return p+1;
 } // node_attribute_index
 
+// namespaces come before attributes, which come before any children
+const unsigned int FIRST_CHILD_POSITION = 0x40000000;
+
 template<class string_type, class string_adaptor>
 unsigned int node_child_position(const DOM::Node<string_type, string_adaptor>& node)
 {
@@ -70,9 +79,9 @@ unsigned int node_child_position(const DOM::Node<string_type, string_adaptor>& n
       do
       {
         n = n.getPreviousSibling();
-        pos += 1000;
+        ++pos;
       } while(n != 0);
-      return pos;
+      return FIRST_CHILD_POSITION + pos;
     } // default
   } // switch ...
 } // node_child_position
@@ -104,7 +113,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
@@ -129,6 +138,25 @@ DOM::Node<string_type, string_adaptor> get_owner_document(const DOM::Node<string
   return node.getOwnerDocument();
 } // get_owner_document
 
+// namespace nodes are created when they're asked for, so one namespace can have several
+// nodes.  They are ordered as the namespace axis orders them.
+template<class string_type, class string_adaptor>
+int compareNamespaceNodes(const DOM::Node<string_type, string_adaptor>& lhs,
+                          const DOM::Node<string_type, string_adaptor>& rhs)
+{
+  const string_type lname = lhs.getLocalName();
+  const string_type rname = rhs.getLocalName();
+  if(lname == rname)
+    return 0;
+
+  const string_type xml = string_adaptor::construct_from_utf8("xml");
+  if(lname == xml)
+    return -1;
+  if(rname == xml)
+    return 1;
+  return (lname < rname) ? -1 : 1;
+} // compareNamespaceNodes
+
 template<class string_type, class string_adaptor>
 int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs, 
                  const DOM::Node<string_type, string_adaptor>& rhs)
@@ -154,7 +182,7 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
   while(l != le && r != re)
   {
     if(*l != *r)
-      return *l - *r;
+      return (*l < *r) ? -1 : 1;
 
     ++l;
     ++r;
@@ -164,7 +192,8 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
     return 1;
   if(r != re)
     return -1;
-  return 0;
+  // different namespace nodes of the same element, or different representations of the same namespace
+  return compareNamespaceNodes(lhs, rhs);
 } // compareNodes
 
 template<class string_type, class string_adaptor>
@@ -174,6 +203,15 @@ bool nodes_less_than(const DOM::Node<string_type, string_adaptor>& n1,
   return compareNodes(n1, n2) < 0; 
 } // nodes_less_than
 
+template<class string_type, class string_adaptor>
+bool same_node(const DOM::Node<string_type, string_adaptor>& n1, 
+               const DOM::Node<string_type, string_adaptor>& n2) 
+{ 
+  return (n1 == n2) ||
+         ((n1.getNodeType() == NAMESPACE_NODE_TYPE) && (n2.getNodeType() == NAMESPACE_NODE_TYPE) &&
+          (compareNodes(n1, n2) == 0)); 
+} // same_node
+
 } // namespace impl
 
 ///////////////////////////////////////////////////////////
@@ -250,6 +288,7 @@ public:
 
   bool forward() const { return sorted_ && forward_; }
   bool reverse() const { return sorted_ && !forward_; }
+  bool in_document_order() const { return forward_; } // once sorted
   void forward(bool forward) 
   { 
     if(forward_ == forward)
@@ -280,7 +319,7 @@ public:
     else
       std::sort(nodes_.rbegin(), nodes_.rend(), impl::nodes_less_than<string_type, string_adaptor>);
 
-    nodes_.erase(std::unique(nodes_.begin(), nodes_.end()), nodes_.end());
+    nodes_.erase(std::unique(nodes_.begin(), nodes_.end(), impl::same_node<string_type, string_adaptor>), nodes_.end());
     sorted_ = true;
   } // sort
 
@@ -406,34 +445,110 @@ namespace impl
 {
 inline double roundNumber(double value) 
 { 
-  if(!(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0)))
-  {
-    if((value < 0.0) && (value > -0.5))
-      value = -0.0;
-    else
-      value = std::floor(value + 0.5);
-  } // if ...
-  return value;
+  if(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0))
+    return value;
+
+  if((value < 0.0) && (value >= -0.5))
+    return -0.0;
+
+  // adding 0.5 and taking the floor looks simpler, but the sum may be rounded
+  const double lower = std::floor(value);
+  return ((value - lower) < 0.5) ? lower : lower + 1;
 } // roundNumber
 
 template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
-  try {
-    static string_type PLUS = string_adaptor::construct_from_utf8("+");
-
-    string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
-    // '+1.5' is not a number according to XPath spec, counter intuitive as that is
-    if(string_adaptor::find(n_str, PLUS) == 0)
-      return NaN;
-    
-    return boost::lexical_cast<double>(n_str);
-  } // try
-  catch(const boost::bad_lexical_cast&) {
+  typedef text::Unicode<typename string_adaptor::value_type> UnicodeT;
+  typename string_adaptor::const_iterator i = string_adaptor::begin(str), e = string_adaptor::end(str);
+
+  // S? '-'? Number S?
+  // Note '+1.5', '1e3', 'inf', and so on are not numbers according to the XPath
+  // spec, counter intuitive as that is
+  while((i != e) && XML::is_space(*i))
+    ++i;
+
+  std::string number;
+  if((i != e) && (*i == UnicodeT::HYPHEN_MINUS))
+  {
+    number += '-';
+    ++i;
+  } // if ...
+
+  bool digits = false;
+  bool point = false;
+  for( ; i != e; ++i)
+  {
+    if((*i >= UnicodeT::NUMBER_0) && (*i <= UnicodeT::NUMBER_9))
+    {
+      number += static_cast<char>('0' + (*i - UnicodeT::NUMBER_0));
+      digits = true;
+    }
+    else if((*i == UnicodeT::FULL_STOP) && !point)
+    {
+      number += '.';
+      point = true;
+    }
+    else
+      break;
+  } // for ...
+
+  while((i != e) && XML::is_space(*i))
+    ++i;
+  if(!digits || (i != e))
     return NaN;
-  } // catch
+
+  std::istringstream is(number);
+  is.imbue(std::locale::classic());
+  double value = 0;
+  if(!(is >> value)) // only fails if out of range
+    value = (number[0] == '-') ? Negative_Infinity : Infinity;
+  return value;
 } // stringAsNumber
 
+inline std::string numberAsString(double value)
+{
+  if(isNaN(value))
+    return "NaN";
+  if(isInfinity(value))
+    return "Infinity";
+  if(isNegativeInfinity(value))
+    return "-Infinity";
+  if(value == 0)
+    return "0";
+
+  // the fewest digits that distinguish the number from all others
+  std::string digits;
+  int exponent = 0;
+  for(int precision = 14; precision <= 16; ++precision)
+  {
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+    os << std::scientific << std::setprecision(precision) << std::fabs(value);
+    const std::string s = os.str();
+    const std::string::size_type e = s.find('e');
+    digits = s.substr(0, 1) + s.substr(2, e - 2);
+    exponent = std::atoi(s.c_str() + e + 1);
+
+    std::istringstream is(s);
+    is.imbue(std::locale::classic());
+    double check = 0;
+    if((is >> check) && (check == std::fabs(value)))
+      break;
+  } // for ...
+  digits.erase(digits.find_last_not_of('0') + 1);
+
+  std::string str = (value < 0) ? "-" : "";
+  const int count = static_cast<int>(digits.length());
+  if(exponent < 0)
+    str += "0." + std::string(-exponent - 1, '0') + digits;
+  else if(exponent + 1 >= count)
+    str += digits + std::string(exponent + 1 - count, '0');
+  else
+    str += digits.substr(0, exponent + 1) + "." + digits.substr(exponent + 1);
+  return str;
+} // numberAsString
+
 template<class string_type, class string_adaptor>
 bool nodeIsText(const DOM::Node<string_type, string_adaptor>& node)
 {
@@ -528,8 +643,17 @@ private:
   compareNodeWith& operator=(const compareNodeWith&);
 }; // class compareNodeWith
 
-template<class string_type, class string_adaptor, class predicate1, class predicate2>
-bool nodeSetsCompare(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
+template<class string_type, class string_adaptor>
+std::set<string_type> stringValues(const NodeSet<string_type, string_adaptor>& ns)
+{
+  std::set<string_type> values;
+  for(typename NodeSet<string_type, string_adaptor>::const_iterator n = ns.begin(), nend = ns.end(); n != nend; ++n)
+    values.insert(nodeStringValue<string_type, string_adaptor>(*n));
+  return values;
+} // stringValues
+
+template<class string_type, class string_adaptor>
+bool nodeSetsEqual(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
   const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
   const NodeSet<string_type, string_adaptor>& rns = rhs.asNodeSet();
@@ -537,43 +661,29 @@ bool nodeSetsCompare(const XPathValue<string_type, string_adaptor>& lhs, const X
   if((lns.size() == 0) || (rns.size() == 0))
     return false;
 
-  std::set<string_type> values;
-  typename NodeSet<string_type, string_adaptor>::const_iterator l = lns.begin();
-  string_type lvalue = nodeStringValue<string_type, string_adaptor>(*l);
-
-  predicate1 p1;
-  for(typename NodeSet<string_type, string_adaptor>::const_iterator r = rns.begin(), rend = rns.end(); r != rend; ++r)
-  {
-    string_type rvalue = nodeStringValue<string_type, string_adaptor>(*r);
-    if(p1(lvalue, rvalue))
-      return true;
-    values.insert(rvalue);
-  } // for ...
-
-  ++l;
-  predicate2 p2;
-  for(typename NodeSet<string_type, string_adaptor>::const_iterator lend = lns.end(); l != lend; ++l)
-    if(p2(values.find(nodeStringValue<string_type, string_adaptor>(*l)),  values.end()))
+  const std::set<string_type> values = stringValues<string_type, string_adaptor>(rns);
+  for(typename NodeSet<string_type, string_adaptor>::const_iterator l = lns.begin(), lend = lns.end(); l != lend; ++l)
+    if(values.find(nodeStringValue<string_type, string_adaptor>(*l)) != values.end())
       return true;
 
   return false;
 } // nodeSetsEqual
 
-template<class string_type, class string_adaptor>
-bool nodeSetsEqual(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
-{
-  return nodeSetsCompare<string_type, string_adaptor, 
-                         std::equal_to<string_type>,
-                         std::not_equal_to<typename std::set<string_type>::const_iterator> >(lhs, rhs);
-}
-
 template<class string_type, class string_adaptor>
 bool nodeSetsNotEqual(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
-  return nodeSetsCompare<string_type, string_adaptor, 
-                         std::not_equal_to<string_type>,
-                         std::equal_to<typename std::set<string_type>::const_iterator> >(lhs, rhs);
-}
+  const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
+  const NodeSet<string_type, string_adaptor>& rns = rhs.asNodeSet();
+
+  if((lns.size() == 0) || (rns.size() == 0))
+    return false;
+
+  const std::set<string_type> lvalues = stringValues<string_type, string_adaptor>(lns);
+  const std::set<string_type> rvalues = stringValues<string_type, string_adaptor>(rns);
+
+  // there is some pair of nodes which differ, unless all the nodes are the same
+  return (lvalues.size() > 1) || (rvalues.size() > 1) || (*lvalues.begin() != *rvalues.begin());
+} // nodeSetsNotEqual
 
 template<class string_type, class string_adaptor>
 bool nodeSetAndValueEqual(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
@@ -633,16 +743,17 @@ bool nodeSetAndValueNotEqual(const XPathValue<string_type, string_adaptor>& lhs,
   } // switch
 } // nodeSetAndValueNotEqual
 
+// the smallest number in the node set, or NaN if there isn't a number in there
 template<class string_type, class string_adaptor> 
 double minValue(const NodeSet<string_type, string_adaptor>& ns)
 {
-  double v = nodeNumberValue<string_type, string_adaptor>(ns[0]);
+  double v = NaN;
   for(typename NodeSet<string_type, string_adaptor>::const_iterator i = ns.begin(), ie = ns.end(); i != ie; ++i)
   {
     double vt = nodeNumberValue<string_type, string_adaptor>(*i);
     if(isNaN(vt))
       continue;
-    if(!(vt > v)) // looks weird, but should account for infinity
+    if(isNaN(v) || (vt < v))
       v = vt;
   } // for ...
   return v;
@@ -651,13 +762,13 @@ double minValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class string_type, class string_adaptor> 
 double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 {
-  double v = nodeNumberValue<string_type, string_adaptor>(ns[0]);
+  double v = NaN;
   for(typename NodeSet<string_type, string_adaptor>::const_iterator i = ns.begin(), ie = ns.end(); i != ie; ++i)
   {
     double vt = nodeNumberValue<string_type, string_adaptor>(*i);
     if(isNaN(vt))
       continue;
-    if(!(vt < v))
+    if(isNaN(v) || (vt > v))
       v = vt;
   } // for ...
   return v;
@@ -672,6 +783,9 @@ bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const X
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSetWith(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(rhs.type() == BOOL)
+    return Op()(lhs.asBool() ? 1 : 0, rhs.asNumber());
+
   const NodeSet<string_type, string_adaptor>& lns = lhs.asNodeSet();
   return std::find_if(lns.begin(), 
                       lns.end(), 
diff --git a/include/XPath/impl/xpath_union.hpp b/include/XPath/impl/xpath_union.hpp
index 4e1f5ae..4e1bac7 100644
--- a/include/XPath/impl/xpath_union.hpp
+++ b/include/XPath/impl/xpath_union.hpp
@@ -37,11 +37,9 @@ public:
 
     // do the obvious optimizations
     if(ns1.empty())
-      return wrap(ns2);
-    if(ns2.empty())
-      return wrap(ns1);
-
-    ns1.insert(ns1.end()-1, ns2.begin(), ns2.end());
+      ns1.swap(ns2);
+    else if(!ns2.empty())
+      ns1.insert(ns1.end()-1, ns2.begin(), ns2.end());
     ns1.to_document_order();
 
     return wrap(ns1);
diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 27eff4f..10b8205 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -106,13 +106,7 @@ public:
   virtual double asNumber() const { return value_; }
   virtual string_type asString() const
   {
-    if(isNaN(value_)) 
-      return string_adaptor::construct_from_utf8("NaN");
-    if(isInfinity(value_))
-      return string_adaptor::construct_from_utf8("Infinity");
-    if(isNegativeInfinity(value_))
-      return string_adaptor::construct_from_utf8("-Infinity");
-    return string_adaptor::construct_from_utf8(boost::lexical_cast<std::string>(value_).c_str());
+    return string_adaptor::construct_from_utf8(impl::numberAsString(value_).c_str());
   } // asString
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
 
-- 
2.43.0


From fa0d4e003be99ad7941f79aca51d0bc3e4a016f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 045/106] fix: match patterns follow XSLT 5.2, expressions
 don't leak when compilation fails

---
 CMakeLists.txt                               |   2 +-
 include/Makefile.am                          |   2 +-
 include/XPath/impl/xpath_function_holder.hpp |  16 +-
 include/XPath/impl/xpath_match.hpp           |   3 +-
 include/XPath/impl/xpath_match_rewrite.hpp   | 128 -------
 include/XPath/impl/xpath_parser.hpp          | 345 ++++++-------------
 include/XPath/impl/xpath_pattern.hpp         | 220 ++++++++++++
 include/XPath/impl/xpath_step.hpp            | 124 +++++--
 8 files changed, 440 insertions(+), 400 deletions(-)
 delete mode 100755 include/XPath/impl/xpath_match_rewrite.hpp
 create mode 100644 include/XPath/impl/xpath_pattern.hpp

diff --git a/CMakeLists.txt b/CMakeLists.txt
index d0aa38e..3f739fc 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -287,7 +287,7 @@ set(PUBLIC_HEADER_FILES
   include/XPath/impl/xpath_lexer.hpp
   include/XPath/impl/xpath_logical.hpp
   include/XPath/impl/xpath_match.hpp
-  include/XPath/impl/xpath_match_rewrite.hpp
+  include/XPath/impl/xpath_pattern.hpp
   include/XPath/impl/xpath_namespace_context.hpp
   include/XPath/impl/xpath_namespace_node.hpp
   include/XPath/impl/xpath_node_test.hpp
diff --git a/include/Makefile.am b/include/Makefile.am
index 96db6ae..622c2e2 100644
--- a/include/Makefile.am
+++ b/include/Makefile.am
@@ -172,7 +172,7 @@ xpath_headers =	XPath/XPath.hpp \
 	XPath/impl/xpath_function.hpp \
 	XPath/impl/xpath_step.hpp \
 	XPath/impl/xpath_namespace_node.hpp \
-	XPath/impl/xpath_match_rewrite.hpp \
+	XPath/impl/xpath_pattern.hpp \
 	XPath/impl/xpath_relational.hpp \
 	XPath/impl/xpath_node_test.hpp \
 	XPath/impl/xpath_ast.hpp \
diff --git a/include/XPath/impl/xpath_function_holder.hpp b/include/XPath/impl/xpath_function_holder.hpp
index 6466a1e..8c1c787 100644
--- a/include/XPath/impl/xpath_function_holder.hpp
+++ b/include/XPath/impl/xpath_function_holder.hpp
@@ -114,10 +114,12 @@ class FunctionHolder : public XPathExpression_impl<string_type, string_adaptor>
 public:
   FunctionHolder(XPathFunction<string_type, string_adaptor>* func,
                  const string_type& namespace_uri, 
-                 const string_type& name) :
+                 const string_type& name,
+                 const std::vector<XPathExpression<string_type, string_adaptor> >& args) :
     func_(func),
     namespace_uri_(namespace_uri),
-    name_(name)
+    name_(name),
+    args_(args)
   {
   } // FunctionHolder
 
@@ -137,6 +139,13 @@ public:
     return XPathValue<string_type, string_adaptor>(func_->evaluate(context, executionContext));
   } // evaluate
 
+  virtual void scan(impl::Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    for(size_t a = 0; a != args_.size(); ++a)
+      args_[a].get()->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
   static FunctionHolder* createFunction(const string_type& namespace_uri,
                                         const string_type& name, 
                                         const std::vector<XPathExpression<string_type, string_adaptor> >& argExprs,
@@ -162,13 +171,14 @@ public:
       throw UndefinedFunctionException(string_adaptor().asStdString(error));
     } // if(func == 0)
     
-    return new FunctionHolder(func, namespace_uri, name);
+    return new FunctionHolder(func, namespace_uri, name, argExprs);
   } // createFunction
 
 private:
   XPathFunction<string_type, string_adaptor>* func_;
   string_type namespace_uri_;
   string_type name_;
+  std::vector<XPathExpression<string_type, string_adaptor> > args_;
 }; // class FunctionHolder
 
 } // namespace impl
diff --git a/include/XPath/impl/xpath_match.hpp b/include/XPath/impl/xpath_match.hpp
index ffbb930..b5f4799 100644
--- a/include/XPath/impl/xpath_match.hpp
+++ b/include/XPath/impl/xpath_match.hpp
@@ -14,7 +14,8 @@ template<class string_type, class string_adaptor = Arabica::default_string_adapt
 class MatchExpr
 {
 public:
-  MatchExpr(XPathExpression_impl<string_type, string_adaptor>* match, double priority);
+  MatchExpr(XPathExpression_impl<string_type, string_adaptor>* match, double priority) :
+    match_(match), priority_(priority) { }
   MatchExpr(const MatchExpr& rhs) :
     match_(rhs.match_), priority_(rhs.priority_) { } 
   MatchExpr& operator=(const MatchExpr& rhs)
diff --git a/include/XPath/impl/xpath_match_rewrite.hpp b/include/XPath/impl/xpath_match_rewrite.hpp
deleted file mode 100755
index 6cf156c..0000000
--- a/include/XPath/impl/xpath_match_rewrite.hpp
+++ /dev/null
@@ -1,128 +0,0 @@
-#ifndef ARABICA_XPATHIC_MATCH_REWRITE_HPP
-#define ARABICA_XPATHIC_MATCH_REWRITE_HPP
-
-namespace Arabica
-{
-namespace XPath
-{
-
-template<class string_type, class string_adaptor>
-class ReplacementExpression : public XPathExpression_impl<string_type, string_adaptor>
-{
-public:
-  ReplacementExpression(impl::NodeTest<string_type, string_adaptor>* test, 
-                        const std::vector<XPathExpression_impl<string_type, string_adaptor>*>& preds) 
-  {
-    test_ = new impl::TestStepExpression<string_type, string_adaptor>(CHILD, test, preds);
-  } // ReplacementExpression
-
-  ~ReplacementExpression()
-  {
-    delete test_;
-  } // ~ReplacementExpression
-
-  virtual ValueType type() const { return BOOL; }
-
-  virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& context, 
-                                                           const ExecutionContext<string_type, string_adaptor>& executionContext) const 
-  {
-    DOM::Node<string_type, string_adaptor> parent = context.getParentNode();
-    NodeSet<string_type, string_adaptor> nodes = test_->evaluateAsNodeSet(parent, executionContext);
-    bool found = false;
-    for(typename NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), ne = nodes.end(); 
-        !found && (n != ne); ++n)
-      found = (context == *n);
-    return XPathValue<string_type, string_adaptor>(new BoolValue<string_type, string_adaptor>(found));  
-  } // evaluate
-
-private:
-  impl::TestStepExpression<string_type, string_adaptor>* test_;
-}; // class ReplacementExpression
-
-namespace impl
-{
-  template<class string_type, class string_adaptor>
-  class PositionFnScanner : public Expression_scanner<string_type, string_adaptor>
-  {
-  public:
-    PositionFnScanner() : found_(false) { }
-
-    bool found() const { return found_; }
-
-    virtual void scan(const XPathExpression_impl<string_type, string_adaptor>* const expr)
-    {
-      typedef FunctionHolder<string_type, string_adaptor> FH;
-      const FH* const fn = dynamic_cast<const FH* const>(expr);
-      if(fn == 0)
-        return;
-
-      if(!string_adaptor::empty(fn->namespace_uri()))
-        return;
-
-      found_ = found_ || ((fn->name() == FN_POSITION) || (fn->name() == FN_LAST));
-    } // scan
-
-  private:
-    bool found_;
-
-    static const string_type FN_POSITION;
-    static const string_type FN_LAST;
-  }; // class PositionFnScanner
-
-  template<class string_type, class string_adaptor>
-  const string_type PositionFnScanner<string_type, string_adaptor>::FN_POSITION = string_adaptor::construct_from_utf8("position");
-  template<class string_type, class string_adaptor>
-  const string_type PositionFnScanner<string_type, string_adaptor>::FN_LAST = string_adaptor::construct_from_utf8("last");
-
-  template<class string_type, class string_adaptor>
-  bool should_rewrite(XPathExpression_impl<string_type, string_adaptor>* expr) 
-  {
-    if(expr->type() == NUMBER)
-      return true;
-
-    PositionFnScanner<string_type, string_adaptor> scanner;
-    expr->scan(scanner);
-    return scanner.found();
-  } // should_rewrite
-} // namespace impl
-
-template<class string_type, class string_adaptor>
-MatchExpr<string_type, string_adaptor>::MatchExpr(XPathExpression_impl<string_type, string_adaptor>* match, double priority) :
-  match_(match), priority_(priority) 
-{
-  typedef impl::RelativeLocationPath<string_type, string_adaptor> RelativeLocation;
-  typedef impl::StepList<string_type, string_adaptor> StepList;
-  typedef impl::TestStepExpression<string_type, string_adaptor> Step;
-  typedef XPathExpression_impl<string_type, string_adaptor> Expression;
-  typedef std::vector<Expression*> Predicates;
-  // match is a RelativeLocationPath
-  RelativeLocation* path = dynamic_cast<RelativeLocation*>(match);
-  //   foreach step in the steplist
-  StepList& steps = path->steps_;
-  for(typename StepList::const_iterator s = steps.begin(), se = steps.end(); s != se; ++s)
-  {
-  //     foreach predicate in the predicatelist
-    Step* step = dynamic_cast<Step*>(*s);
-    if(!step || step->has_predicates() == false)
-      continue;
-
-    Predicates& predicates = step->predicates_;
-    typename Predicates::iterator positional = std::find_if(predicates.begin(), predicates.end(), impl::should_rewrite<string_type, string_adaptor>);
-    while(positional != predicates.end())
-    {
-      Predicates folding(predicates.begin(), positional+1);
-      Expression* replacement_expression = new ReplacementExpression<string_type, string_adaptor>(step->test_->clone(), folding);
-      // replacement_expression now owns the leading predicates
-      *positional = replacement_expression;
-      // so remove the everyting upto the one we've just replaced
-      predicates.erase(predicates.begin(), positional);
-      positional = std::find_if(predicates.begin(), predicates.end(), impl::should_rewrite<string_type, string_adaptor>);
-    } // while ...
-  } // for(StepList::const_iterator ...
-} // MatchExpr
-
-} // namespace XPath
-
-} // namespace Arabica
-
-#endif
diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 1499340..8abe03b 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -56,6 +56,7 @@ namespace impl
   template<class string_type, class string_adaptor> class CompilationContext;
 
   template<class string_type, class string_adaptor> class StepExpression;
+  template<class string_type, class string_adaptor> class PatternExpression;
 
   template<class string_type, class string_adaptor>
   class StepList : public std::deque<impl::StepExpression<string_type, string_adaptor>*> { };
@@ -278,15 +279,10 @@ private:
 
   static impl::StepList<string_type, string_adaptor> createStepList(typename impl::types<string_adaptor>::node_iter_t const& from, typename impl::types<string_adaptor>::node_iter_t const& to, impl::CompilationContext<string_type, string_adaptor>& context);
 
-  static XPathExpression_impl<string_type, string_adaptor>* createDocMatch(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
-  static XPathExpression_impl<string_type, string_adaptor>* createSingleMatchStep(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
-  static XPathExpression_impl<string_type, string_adaptor>* createRelativePathPattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
+  static XPathExpression_impl<string_type, string_adaptor>* createPattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
+  static void addToPattern(impl::PatternExpression<string_type, string_adaptor>& pattern, typename impl::types<string_adaptor>::node_iter_t const& i, impl::CompilationContext<string_type, string_adaptor>& context);
+  static double defaultPriority(typename impl::types<string_adaptor>::node_iter_t const& i);
   static XPathExpression_impl<string_type, string_adaptor>* createAlternatePattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
-  static XPathExpression_impl<string_type, string_adaptor>* createIdKeyPattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
-  static double defaultPriority(typename impl::types<string_adaptor>::node_iter_t const& i,
-                                typename impl::types<string_adaptor>::node_iter_t const& ie);
-
-  static impl::StepList<string_type, string_adaptor> createPatternList(typename impl::types<string_adaptor>::node_iter_t const& from, typename impl::types<string_adaptor>::node_iter_t const& to, impl::CompilationContext<string_type, string_adaptor>& context);
 
   static XPathExpression_impl<string_type, string_adaptor>* createAttributeValue(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
   static XPathExpression_impl<string_type, string_adaptor>* createEmbeddedExpr(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context);
@@ -370,21 +366,21 @@ private:
   {
     std::map<int, compileFn> factory;
 
-    factory[impl::Slash_id] = createDocMatch;
-    factory[impl::NameTest_id] = createSingleMatchStep;
-    factory[impl::QName_id] = createSingleMatchStep;
-    factory[impl::NCName_id] = createSingleMatchStep;
-    factory[impl::NodeMatchPattern_id] = createSingleMatchStep;
-    factory[impl::AnyName_id] = createSingleMatchStep;
-    factory[impl::Text_id] = createSingleMatchStep;
-    factory[impl::Comment_id] = createSingleMatchStep;
-    factory[impl::ProcessingInstruction_id] = createSingleMatchStep;
-    factory[impl::NodeTest_id] = createSingleMatchStep;
-    factory[impl::StepPattern_id] = createRelativePathPattern;
-    factory[impl::LocationPathPattern_id] = createRelativePathPattern;
-    factory[impl::RelativePathPattern_id] = createRelativePathPattern;
+    factory[impl::Slash_id] = createPattern;
+    factory[impl::NameTest_id] = createPattern;
+    factory[impl::QName_id] = createPattern;
+    factory[impl::NCName_id] = createPattern;
+    factory[impl::NodeMatchPattern_id] = createPattern;
+    factory[impl::AnyName_id] = createPattern;
+    factory[impl::Text_id] = createPattern;
+    factory[impl::Comment_id] = createPattern;
+    factory[impl::ProcessingInstruction_id] = createPattern;
+    factory[impl::NodeTest_id] = createPattern;
+    factory[impl::StepPattern_id] = createPattern;
+    factory[impl::LocationPathPattern_id] = createPattern;
+    factory[impl::RelativePathPattern_id] = createPattern;
     factory[impl::Pattern_id] = createAlternatePattern;
-    factory[impl::IdKeyPattern_id] = createIdKeyPattern;
+    factory[impl::IdKeyPattern_id] = createPattern;
 
     return factory;
   } // init_matchCreateFunctions
@@ -547,7 +543,7 @@ private:
 #include "xpath_variable.hpp"
 #include "xpath_function_holder.hpp"
 #include "xpath_union.hpp"
-#include "xpath_match_rewrite.hpp"
+#include "xpath_pattern.hpp"
 
 namespace Arabica
 {
@@ -564,7 +560,17 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
 template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createRelativeLocationPath(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& context)
 {
-  return new impl::RelativeLocationPath<string_type, string_adaptor>(createStepList(i->children.begin(), i->children.end(), context));
+  typename impl::types<string_adaptor>::node_iter_t first = i->children.begin();
+  impl::Holder<impl::StepList<string_type, string_adaptor> > steps;
+  if(impl::getNodeId<string_adaptor>(impl::skipWhitespace<string_adaptor>(first)) == impl::Slash_id)
+  {
+    // not a separator, but a filter expression consisting of the root - (/)/child
+    steps.push_back(impl::StepFactory<string_type, string_adaptor>::createExprStep(first, i->children.end(), context));
+    ++first;
+  } // if ...
+
+  steps.append(createStepList(first, i->children.end(), context));
+  return new impl::RelativeLocationPath<string_type, string_adaptor>(steps.release());
 } // createRelativeLocationPath
 
 template<class string_type, class string_adaptor>
@@ -630,58 +636,58 @@ template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createBinaryExpression(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& context)
 {
   typename impl::types<string_adaptor>::node_iter_t c = i->children.begin();
-  XPathExpression_impl<string_type, string_adaptor>* p1 = XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context);
+  std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > p1(XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context));
   ++c;
 
   do
   {
     long op = impl::getNodeId<string_adaptor>(c);
     ++c;
-    XPathExpression_impl<string_type, string_adaptor>* p2 = XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context);
+    std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > p2(XPath<string_type, string_adaptor>::compile_expression(c, i->children.end(), context));
 
     switch(op)
     {
       case impl::PlusOperator_id:
-        p1 = new impl::PlusOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::PlusOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::MinusOperator_id:
-        p1 = new impl::MinusOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::MinusOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::MultiplyOperator_id:
-        p1 = new impl::MultiplyOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::MultiplyOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::DivOperator_id:
-        p1 = new impl::DivideOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::DivideOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::ModOperator_id:
-        p1 = new impl::ModOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::ModOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::EqualsOperator_id:
-        p1 = new impl::EqualsOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::EqualsOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::NotEqualsOperator_id:
-        p1 = new impl::NotEqualsOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::NotEqualsOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::LessThanOperator_id:
-        p1 = new impl::LessThanOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::LessThanOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::LessThanEqualsOperator_id:
-        p1 = new impl::LessThanEqualsOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::LessThanEqualsOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::GreaterThanOperator_id:
-        p1 = new impl::GreaterThanOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::GreaterThanOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::GreaterThanEqualsOperator_id:
-        p1 = new impl::GreaterThanEqualsOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::GreaterThanEqualsOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::OrOperator_id:
-        p1 = new impl::OrOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::OrOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::AndOperator_id:
-        p1 = new impl::AndOperator<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::AndOperator<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       case impl::UnionOperator_id:
-        p1 = new impl::UnionExpression<string_type, string_adaptor>(p1, p2);
+        p1.reset(new impl::UnionExpression<string_type, string_adaptor>(p1.release(), p2.release()));
         break;
       default:
         throw UnsupportedException(boost::lexical_cast<std::string>(op));
@@ -689,7 +695,7 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
   }
   while(++c != i->children.end());
 
-  return p1;
+  return p1.release();
 } // createBinaryExpression
 
 template<class string_type, class string_adaptor>
@@ -703,7 +709,7 @@ template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createNumber(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& /* context */)
 {
   string_type str = string_adaptor::construct(i->value.begin(), i->value.end());
-  return new NumericValue<string_type, string_adaptor>(boost::lexical_cast<double>(str));
+  return new NumericValue<string_type, string_adaptor>(impl::stringAsNumber<string_type, string_adaptor>(str));
 } // createNumber
 
 template<class string_type, class string_adaptor>
@@ -751,7 +757,7 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
                                                             typename impl::types<string_adaptor>::node_iter_t const& to,
                                                             impl::CompilationContext<string_type, string_adaptor>& context)
 {
-  impl::StepList<string_type, string_adaptor> steps;
+  impl::Holder<impl::StepList<string_type, string_adaptor> > steps;
 
   typename impl::types<string_adaptor>::node_iter_t c = from;
   typename impl::types<string_adaptor>::node_iter_t end = to;
@@ -769,12 +775,9 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
         ++c;
         break;
       case impl::RelativeLocationPath_id:
-        {
-          // might get here when handling an absolute path
-          const impl::StepList<string_type, string_adaptor> rel = createStepList(c->children.begin(), c->children.end(), context);
-          std::copy(rel.begin(), rel.end(), std::back_inserter(steps));
-          ++c;
-        }
+        // might get here when handling an absolute path
+        steps.append(createStepList(c->children.begin(), c->children.end(), context));
+        ++c;
         break;
       case impl::Step_id:
         {
@@ -787,32 +790,52 @@ impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::
         steps.push_back(impl::StepFactory<string_type, string_adaptor>::createStep(c, end, context));
     } // switch(impl::getNodeId(c))
 
-  return steps;
+  return steps.release();
 } // createStepList
 
 template<class string_type, class string_adaptor>
-XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createDocMatch(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context)
+XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createPattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& context)
 {
-  typename impl::types<string_adaptor>::node_iter_t n = i;
-  return new impl::MatchExpressionWrapper<string_type, string_adaptor>(new impl::RelativeLocationPath<string_type, string_adaptor>(impl::StepFactory<string_type, string_adaptor>::createSingleStep(n, ie, context)), defaultPriority(i, ie));
-} // createDocMatch
+  std::unique_ptr<impl::PatternExpression<string_type, string_adaptor> > pattern(new impl::PatternExpression<string_type, string_adaptor>());
+  addToPattern(*pattern, i, context);
+
+  const double priority = defaultPriority(i);
+  return new impl::MatchExpressionWrapper<string_type, string_adaptor>(pattern.release(), priority);
+} // createPattern
 
 template<class string_type, class string_adaptor>
-XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createSingleMatchStep(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context)
+void XPath<string_type, string_adaptor>::addToPattern(impl::PatternExpression<string_type, string_adaptor>& pattern,
+                                                      typename impl::types<string_adaptor>::node_iter_t const& i,
+                                                      impl::CompilationContext<string_type, string_adaptor>& context)
 {
   typename impl::types<string_adaptor>::node_iter_t n = i;
 
-  impl::StepList<string_type, string_adaptor> steps;
-  steps.push_back(new impl::TestStepExpression<string_type, string_adaptor>(SELF, new impl::NotAttributeNodeTest<string_type, string_adaptor>()));
-  steps.push_back(impl::StepFactory<string_type, string_adaptor>::createSingleStep(n, ie, context, SELF));
-  return new impl::MatchExpressionWrapper<string_type, string_adaptor>(new impl::RelativeLocationPath<string_type, string_adaptor>(steps), defaultPriority(i, ie));
-} // createSingleMatchStep
-
-template<class string_type, class string_adaptor>
-XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createRelativePathPattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context)
-{
-  return new impl::MatchExpressionWrapper<string_type, string_adaptor>(new impl::RelativeLocationPath<string_type, string_adaptor>(createPatternList(i->children.begin(), i->children.end(), context)), defaultPriority(i, ie));
-} // createRelativePathPattern
+  switch(impl::getNodeId<string_adaptor>(i))
+  {
+    case impl::LocationPathPattern_id:
+    case impl::RelativePathPattern_id:
+      for(n = i->children.begin(); n != i->children.end(); ++n)
+        addToPattern(pattern, n, context);
+      break;
+    case impl::Slash_id:
+      pattern.add_separator(false);
+      break;
+    case impl::SlashSlash_id:
+      pattern.add_separator(true);
+      break;
+    case impl::IdKeyPattern_id:
+      pattern.start_from(new impl::IdKeyStepExpression<string_type, string_adaptor>(createFunction(i, i+1, context)));
+      break;
+    case impl::StepPattern_id:
+      n = i->children.begin();
+      pattern.add_step(impl::StepFactory<string_type, string_adaptor>::createPatternStep(n, i->children.end(), context));
+      break;
+    case impl::S_id:
+      break;
+    default:
+      pattern.add_step(impl::StepFactory<string_type, string_adaptor>::createPatternStep(n, i+1, context));
+  } // switch ...
+} // addToPattern
 
 template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createAlternatePattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& context)
@@ -820,202 +843,60 @@ XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_ada
   // child sequence is test union_op test ...
   typename impl::types<string_adaptor>::node_iter_t n = i->children.begin(), e = i->children.end();
 
-  impl::MatchExpressionWrapper<string_type, string_adaptor>* matches =
-    new impl::MatchExpressionWrapper<string_type, string_adaptor>(compile_match(n++, e, context));
+  std::unique_ptr<impl::MatchExpressionWrapper<string_type, string_adaptor> > matches(
+    new impl::MatchExpressionWrapper<string_type, string_adaptor>(compile_match(n++, e, context)));
   while(n != e)
   {
     ++n; // skip |
     matches->add_matches(compile_match(n++, e, context));
   } // while
 
-  return matches;
+  return matches.release();
 } // createAlternatePattern
 
 template<class string_type, class string_adaptor>
-XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createIdKeyPattern(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& ie, impl::CompilationContext<string_type, string_adaptor>& context)
+double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<string_adaptor>::node_iter_t const& node)
 {
-  XPathExpression_impl<string_type, string_adaptor>* fn = createFunction(i, ie, context);
-
-  impl::StepList<string_type, string_adaptor> steps;
-  steps.push_back(new impl::IdKeyStepExpression<string_type, string_adaptor>(fn));
+  typename impl::types<string_adaptor>::node_iter_t i = node;
 
-  return new impl::MatchExpressionWrapper<string_type, string_adaptor>(new impl::RelativeLocationPath<string_type, string_adaptor>(steps), defaultPriority(i, ie));
-} // createIdKeyPattern
+  if(impl::getNodeId<string_adaptor>(i) == impl::StepPattern_id)
+  {
+    typename impl::types<string_adaptor>::node_iter_t const end = i->children.end();
+    i = i->children.begin();
 
-template<class string_type, class string_adaptor>
-double XPath<string_type, string_adaptor>::defaultPriority(typename impl::types<string_adaptor>::node_iter_t const& node,
-                                                           typename impl::types<string_adaptor>::node_iter_t const& end)
-{
-  typename impl::types<string_adaptor>::node_iter_t i = node;
-  impl::skipWhitespace<string_adaptor>(i);
+    switch(impl::getNodeId<string_adaptor>(i))
+    {
+      case impl::Child_id:
+      case impl::Attribute_id:
+      case impl::AbbreviatedAxisSpecifier_id:
+        ++i;
+    } // switch ...
 
-  long id = impl::getNodeId<string_adaptor>(i);
-  size_t child_count = 0;
-  for(typename impl::types<string_adaptor>::node_iter_t c = i->children.begin(), ce = i->children.end(); c != ce; ++c)
-    child_count += (impl::getNodeId<string_adaptor>(c) != impl::S_id);
+    if(i+1 != end) // predicates
+      return 0.5;
+  } // if ...
 
-  switch(id)
+  switch(impl::getNodeId<string_adaptor>(i))
   {
     case impl::QName_id:
-      return 0;
     case impl::NCName_id:
-      ++i;
-      if(i == end)
-        return 0;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
-      if(impl::getNodeId<string_adaptor>(i) == impl::AnyName_id)
-        return -0.25;
+    case impl::NodeTest_id: // processing-instruction('name')
       return 0;
 
-    case impl::NodeTest_id:
-      {
-        typename impl::types<string_adaptor>::node_iter_t c = i->children.begin();
-        impl::skipWhitespace<string_adaptor>(c);
-        if(impl::getNodeId<string_adaptor>(c) == impl::ProcessingInstruction_id)
-          return 0;
-      }
+    case impl::NameTest_id:
+      return -0.25;
 
     case impl::NodeMatchPattern_id:
     case impl::AnyName_id:
     case impl::Text_id:
     case impl::Comment_id:
     case impl::ProcessingInstruction_id:
-      ++i;
-      if(i == end)
-        return -0.5;
-      impl::skipWhitespace<string_adaptor>(i);
-      if(impl::getNodeId<string_adaptor>(i) == impl::Predicate_id)
-        return 0.5;
       return -0.5;
-
-    case impl::NameTest_id:
-    case impl::StepPattern_id:
-      //    case impl::LocationPathPattern_id:
-    case impl::RelativePathPattern_id:
-      // case impl::Pattern_id:
-      if(child_count <= 2)
-        return defaultPriority(i->children.begin(), i->children.end());
-      break;
-
-    case impl::Child_id:
-    case impl::Attribute_id:
-    case impl::AbbreviatedAxisSpecifier_id:
-      if(child_count == 0)
-        return defaultPriority(i+1, end);
-      break;
-  } // switch
+  } // switch ...
 
   return 0.5;
 } // defaultPriority
 
-template<class string_adaptor>
-Axis getPatternAxis(typename impl::types<string_adaptor>::node_iter_t const& from,
-                    typename impl::types<string_adaptor>::node_iter_t const& to)
-{
-  typename impl::types<string_adaptor>::node_iter_t next = from + 1;
-  while((next != to) && (impl::getNodeId<string_adaptor>(next) == impl::Predicate_id))
-    ++next;
-
-  if(next == to)
-    return SELF;
-
-  int id = impl::getNodeId<string_adaptor>(next);
-
-  if(id == impl::SlashSlash_id)
-    return ANCESTOR_OR_SELF;
-  if((id == impl::AbbreviatedAxisSpecifier_id) || (id == impl::Attribute_id))
-    return static_cast<Axis>(-1);
-
-  return PARENT;
-} // getPatternAxis
-
-template<class string_type, class string_adaptor>
-void createStepsFromPattern(impl::StepList<string_type, string_adaptor>& steps,
-                            typename impl::types<string_adaptor>::node_iter_t const& from,
-                            typename impl::types<string_adaptor>::node_iter_t const& to,
-                            impl::CompilationContext<string_type, string_adaptor>& context,
-                            Axis override = static_cast<Axis>(-1))
-{
-  typename impl::types<string_adaptor>::node_iter_t c = from;
-  typename impl::types<string_adaptor>::node_iter_t end = to;
-
-  // start
-  switch(impl::getNodeId<string_adaptor>(c))
-  {
-  case impl::Slash_id:
-    steps.push_front(impl::StepFactory<string_type, string_adaptor>::createStep(c, to, context, PARENT));
-  case impl::SlashSlash_id:
-    ++c;
-    break;
-  } // switch
-
-  bool is_attr = false;
-
-  while(c != end)
-  {
-    switch(impl::getNodeId<string_adaptor>(c))
-    {
-    case impl::StepPattern_id:
-      createStepsFromPattern(steps, c->children.begin(), c->children.end(), context, getPatternAxis<string_adaptor>(c, end));
-      ++c;
-      break;
-    case impl::RelativePathPattern_id:
-      createStepsFromPattern(steps, c->children.begin(), c->children.end(), context);
-      ++c;
-      break;
-    case impl::Child_id:
-    case impl::Slash_id:
-    case impl::SlashSlash_id:
-      ++c;
-      break;
-    case impl::AbbreviatedAxisSpecifier_id:
-    case impl::Attribute_id:
-      is_attr = true;
-      ++c;
-      break;
-    default:
-      {
-        if(is_attr)
-          steps.push_front(new impl::TestStepExpression<string_type, string_adaptor>(SELF, new impl::AttributeNodeTest<string_type, string_adaptor>()));
-        else
-          steps.push_front(new impl::TestStepExpression<string_type, string_adaptor>(SELF, new impl::NotAttributeNodeTest<string_type, string_adaptor>()));
-
-        Axis axis = getPatternAxis<string_adaptor>(c, end);
-        if(override != static_cast<Axis>(-1))
-          axis = override;
-        steps.push_front(impl::StepFactory<string_type, string_adaptor>::createStep(c, end, context, axis, is_attr));
-      }
-    } // switch ...
-  } // while(c != end)
-} // createStepsFromPattern
-
-template<class string_type, class string_adaptor>
-impl::StepList<string_type, string_adaptor> XPath<string_type, string_adaptor>::createPatternList(typename impl::types<string_adaptor>::node_iter_t const& from,
-                                                            typename impl::types<string_adaptor>::node_iter_t const& to,
-                                                            impl::CompilationContext<string_type, string_adaptor>& context)
-{
-  impl::StepList<string_type, string_adaptor> steps;
-
-  typename impl::types<string_adaptor>::node_iter_t c = from;
-
-  // start
-  switch(impl::getNodeId<string_adaptor>(c))
-  {
-  case impl::Slash_id:
-    steps.push_front(impl::StepFactory<string_type, string_adaptor>::createStep(c, to, context, PARENT));
-  case impl::SlashSlash_id:
-    ++c;
-    break;
-  } // switch
-
-  createStepsFromPattern(steps, c, to, context);
-
-  return steps;
-} // createPatternList
-
-
 template<class string_type, class string_adaptor>
 XPathExpression_impl<string_type, string_adaptor>* XPath<string_type, string_adaptor>::createAttributeValue(typename impl::types<string_adaptor>::node_iter_t const& i, typename impl::types<string_adaptor>::node_iter_t const& /* ie */, impl::CompilationContext<string_type, string_adaptor>& context)
 {
diff --git a/include/XPath/impl/xpath_pattern.hpp b/include/XPath/impl/xpath_pattern.hpp
new file mode 100644
index 0000000..5e59aab
--- /dev/null
+++ b/include/XPath/impl/xpath_pattern.hpp
@@ -0,0 +1,220 @@
+#ifndef ARABICA_XPATHIC_PATTERN_HPP
+#define ARABICA_XPATHIC_PATTERN_HPP
+
+#include <memory>
+#include <vector>
+#include "xpath_axis_enumerator.hpp"
+#include "xpath_function_holder.hpp"
+#include "xpath_node_test.hpp"
+#include "xpath_step.hpp"
+
+namespace Arabica
+{
+namespace XPath
+{
+namespace impl
+{
+
+// Does the value of an expression depend on the context position or size?
+template<class string_type, class string_adaptor>
+class PositionFnScanner : public Expression_scanner<string_type, string_adaptor>
+{
+public:
+  PositionFnScanner() : found_(false) { }
+
+  bool found() const { return found_; }
+
+  virtual void scan(const XPathExpression_impl<string_type, string_adaptor>* const expr)
+  {
+    typedef FunctionHolder<string_type, string_adaptor> FH;
+    const FH* const fn = dynamic_cast<const FH* const>(expr);
+    if(fn == 0)
+      return;
+
+    if(!string_adaptor::empty(fn->namespace_uri()))
+      return;
+
+    found_ = found_ || ((fn->name() == FN_POSITION) || (fn->name() == FN_LAST));
+  } // scan
+
+private:
+  bool found_;
+
+  static const string_type FN_POSITION;
+  static const string_type FN_LAST;
+}; // class PositionFnScanner
+
+template<class string_type, class string_adaptor>
+const string_type PositionFnScanner<string_type, string_adaptor>::FN_POSITION = string_adaptor::construct_from_utf8("position");
+template<class string_type, class string_adaptor>
+const string_type PositionFnScanner<string_type, string_adaptor>::FN_LAST = string_adaptor::construct_from_utf8("last");
+
+template<class string_type, class string_adaptor>
+bool is_positional(const XPathExpression_impl<string_type, string_adaptor>* expr)
+{
+  if((expr->type() == NUMBER) || (expr->type() == ANY))
+    return true;
+
+  PositionFnScanner<string_type, string_adaptor> scanner;
+  expr->scan(scanner);
+  return scanner.found();
+} // is_positional
+
+// ChildOrAttributeAxisSpecifier NodeTest Predicate*
+template<class string_type, class string_adaptor>
+class PatternStep : public StepExpression<string_type, string_adaptor>
+{
+  typedef StepExpression<string_type, string_adaptor> baseT;
+  typedef DOM::Node<string_type, string_adaptor> NodeT;
+  typedef NodeSet<string_type, string_adaptor> NodeSetT;
+  typedef std::vector<XPathExpression_impl<string_type, string_adaptor>*> Predicates;
+
+public:
+  PatternStep(Axis axis, NodeTest<string_type, string_adaptor>* test, const Predicates& predicates) :
+    baseT(predicates),
+    axis_(axis),
+    test_(test),
+    positional_(false)
+  {
+    for(typename Predicates::const_iterator p = predicates.begin(), pe = predicates.end(); p != pe; ++p)
+      positional_ = positional_ || is_positional<string_type, string_adaptor>(*p);
+  } // PatternStep
+
+  virtual ~PatternStep()
+  {
+    delete test_;
+  } // ~PatternStep
+
+  virtual ValueType type() const { return BOOL; }
+
+  bool matches(const NodeT& node, const ExecutionContext<string_type, string_adaptor>& executionContext) const
+  {
+    if(!on_axis(node) || !(*test_)(node))
+      return false;
+    if(!baseT::has_predicates())
+      return true;
+
+    NodeSetT candidates(true);
+    AxisEnumerator<string_type, string_adaptor> parent(node, PARENT);
+    if(!positional_ || (*parent == 0))
+      candidates.push_back(node);
+    else
+      for(AxisEnumerator<string_type, string_adaptor> n(*parent, axis_); *n != 0; ++n)
+        if((*test_)(*n))
+          candidates.push_back(*n);
+
+    candidates = baseT::applyPredicates(candidates, executionContext);
+    for(typename NodeSetT::const_iterator n = candidates.begin(), ne = candidates.end(); n != ne; ++n)
+      if(*n == node)
+        return true;
+    return false;
+  } // matches
+
+  virtual XPathValue<string_type, string_adaptor> evaluate(const NodeT& context, const ExecutionContext<string_type, string_adaptor>& executionContext) const
+  {
+    return BoolValue<string_type, string_adaptor>::createValue(matches(context, executionContext));
+  } // evaluate
+
+  virtual XPathValue<string_type, string_adaptor> evaluate(NodeSetT& context, const ExecutionContext<string_type, string_adaptor>& executionContext) const
+  {
+    return evaluate(context.top(), executionContext);
+  } // evaluate
+
+private:
+  bool on_axis(const NodeT& node) const
+  {
+    switch(static_cast<int>(node.getNodeType()))
+    {
+    case DOM::Node_base::ATTRIBUTE_NODE:
+      return (axis_ == ATTRIBUTE);
+    case DOM::Node_base::DOCUMENT_NODE:
+    case DOM::Node_base::DOCUMENT_FRAGMENT_NODE:
+    case NAMESPACE_NODE_TYPE:
+      return false;
+    default:
+      return (axis_ == CHILD);
+    } // switch ...
+  } // on_axis
+
+  Axis axis_;
+  NodeTest<string_type, string_adaptor>* test_;
+  bool positional_;
+}; // class PatternStep
+
+// A LocationPathPattern - a sequence of steps, the last step first, optionally
+// starting from the root or from the nodes given by an id or key function
+template<class string_type, class string_adaptor>
+class PatternExpression : public XPathExpression_impl<string_type, string_adaptor>
+{
+  typedef DOM::Node<string_type, string_adaptor> NodeT;
+  typedef ExecutionContext<string_type, string_adaptor> ExecutionContextT;
+  typedef PatternStep<string_type, string_adaptor> StepT;
+
+public:
+  PatternExpression() : descendant_(false) { }
+
+  // the start of the path, matched by start
+  void start_from(StepExpression<string_type, string_adaptor>* start) { start_.reset(start); }
+
+  void add_separator(bool descendant)
+  {
+    if(!start_ && steps_.empty())
+      start_from(new TestStepExpression<string_type, string_adaptor>(SELF, new RootNodeTest<string_type, string_adaptor>()));
+    descendant_ = descendant;
+  } // add_separator
+
+  void add_step(StepT* step)
+  {
+    std::unique_ptr<StepT> s(step);
+    steps_.push_back(Step());
+    steps_.back().step.reset(s.release());
+    steps_.back().descendant = descendant_;
+    descendant_ = false;
+  } // add_step
+
+
+  virtual ValueType type() const { return BOOL; }
+
+  virtual XPathValue<string_type, string_adaptor> evaluate(const NodeT& context, const ExecutionContextT& executionContext) const
+  {
+    return BoolValue<string_type, string_adaptor>::createValue(matches(context, steps_.size(), executionContext));
+  } // evaluate
+
+private:
+  bool matches(const NodeT& node, size_t count, const ExecutionContextT& executionContext) const
+  {
+    if(count == 0)
+      return start_->evaluate(node, executionContext).asBool();
+
+    const Step& s = steps_[count-1];
+    if(!s.step->matches(node, executionContext))
+      return false;
+    if((count == 1) && !start_)
+      return true;
+
+    for(AxisEnumerator<string_type, string_adaptor> ancestor(node, ANCESTOR); *ancestor != 0; ++ancestor)
+    {
+      if(matches(*ancestor, count-1, executionContext))
+        return true;
+      if(!s.descendant)
+        return false;
+    } // for ...
+    return false;
+  } // matches
+
+  struct Step
+  {
+    boost::shared_ptr<StepT> step;
+    bool descendant;
+  }; // struct Step
+
+  boost::shared_ptr<StepExpression<string_type, string_adaptor> > start_;
+  std::vector<Step> steps_;
+  bool descendant_;
+}; // class PatternExpression
+
+} // namespace impl
+} // namespace XPath
+} // namespace Arabica
+
+#endif
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 3d35a7a..e917499 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -17,9 +17,6 @@ namespace Arabica
 namespace XPath
 {
 
-template<class string_type, class string_adaptor>
-class MatchExpr;
-
 namespace impl
 {
 
@@ -59,7 +56,7 @@ private:
                                       const ExecutionContext<string_type, string_adaptor>& parentContext) const
   {
     ExecutionContext<string_type, string_adaptor> executionContext(nodes.size(), parentContext);
-    NodeSet<string_type, string_adaptor> results(nodes.forward());
+    NodeSet<string_type, string_adaptor> results(nodes.in_document_order());
     unsigned int position = 1;
     for(typename NodeSet<string_type, string_adaptor>::iterator i = nodes.begin(); i != nodes.end(); ++i, ++position)
     {
@@ -77,8 +74,6 @@ private:
   } // applyPredicate
   
   std::vector<XPathExpression_impl<string_type, string_adaptor>*> predicates_;
-
-  friend class MatchExpr<string_type, string_adaptor>;
 }; // StepExpression
 
 template<class string_type, class string_adaptor>
@@ -157,8 +152,6 @@ private:
 
   Axis axis_;
   NodeTest<string_type, string_adaptor>* test_;
-
-  friend class MatchExpr<string_type, string_adaptor>;
 }; // class TestStepExpression
 
 template<class string_type, class string_adaptor>
@@ -194,11 +187,54 @@ public:
     return evaluate(c, executionContext);
   } // evaluate
 
+  virtual void scan(Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    expr_->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
 private:
   XPathExpression_impl<string_type, string_adaptor>* expr_;
-  std::vector<XPathExpression_impl<string_type, string_adaptor>*> predicates_;
 }; // class ExprStepExpression
 
+// owns the pointers in a container until they're released
+template<class container>
+class Holder
+{
+public:
+  Holder() { }
+  ~Holder()
+  {
+    for(typename container::iterator i = held_.begin(), e = held_.end(); i != e; ++i)
+      delete *i;
+  } // ~Holder
+
+  void push_back(typename container::value_type p)
+  {
+    std::unique_ptr<typename std::remove_pointer<typename container::value_type>::type> guard(p);
+    held_.push_back(p);
+    guard.release();
+  } // push_back
+
+  void append(const container& c) { held_.insert(held_.end(), c.begin(), c.end()); }
+
+  container release()
+  {
+    container released;
+    released.swap(held_);
+    return released;
+  } // release
+
+private:
+  container held_;
+
+  Holder(const Holder&);
+  Holder& operator=(const Holder&);
+}; // class Holder
+
+template<class string_type, class string_adaptor>
+class PatternStep;
+
 template<class string_type, class string_adaptor>
 class StepFactory
 {
@@ -216,10 +252,9 @@ public:
                          createStep(typename types<string_adaptor>::node_iter_t& node, 
                                     typename types<string_adaptor>::node_iter_t const& end, 
                                     CompilationContext<string_type, string_adaptor>& context,
-                                    Axis axis,
-                                    bool is_attr = false)
+                                    Axis axis)
   {
-    std::unique_ptr<NodeTest<string_type, string_adaptor> > test(getTest(node, end, !is_attr ? axis : ATTRIBUTE, context.namespaceContext()));
+    std::unique_ptr<NodeTest<string_type, string_adaptor> > test(getTest(node, end, axis, context.namespaceContext()));
     std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > thing;
     if(test.get() == 0)
       thing.reset(XPath<string_type, string_adaptor>::compile_expression(node++, end, context));
@@ -236,30 +271,41 @@ public:
   {
     typename types<string_adaptor>::node_iter_t c = node->children.begin();
     typename types<string_adaptor>::node_iter_t const ce = node->children.end();
-    XPathExpression_impl<string_type, string_adaptor>* step = XPath<string_type, string_adaptor>::compile_expression(c, ce, context);
+    std::unique_ptr<XPathExpression_impl<string_type, string_adaptor> > step(XPath<string_type, string_adaptor>::compile_expression(c, ce, context));
     ++c;
     std::vector<XPathExpression_impl<string_type, string_adaptor>*> preds = createPredicates(c, ce, context);
-    return new ExprStepExpression<string_type, string_adaptor>(step, preds);
+    return new ExprStepExpression<string_type, string_adaptor>(step.release(), preds);
   } // createFilter
 
-  static StepExpression<string_type, string_adaptor>* createSingleStep(typename types<string_adaptor>::node_iter_t& node, 
-                                                                       typename types<string_adaptor>::node_iter_t const& end, 
-                                                                       CompilationContext<string_type, string_adaptor>& context)
+  static StepExpression<string_type, string_adaptor>* createExprStep(typename types<string_adaptor>::node_iter_t const& node,
+                                                                     typename types<string_adaptor>::node_iter_t const& end,
+                                                                     CompilationContext<string_type, string_adaptor>& context)
   {
-    Axis axis = getAxis(node);
-    return createSingleStep(node, end, context, axis);
-  } // createStep
+    return new ExprStepExpression<string_type, string_adaptor>(XPath<string_type, string_adaptor>::compile_expression(node, end, context),
+                                                               std::vector<XPathExpression_impl<string_type, string_adaptor>*>());
+  } // createExprStep
 
   static StepExpression<string_type, string_adaptor>* createSingleStep(typename types<string_adaptor>::node_iter_t& node, 
                                                                        typename types<string_adaptor>::node_iter_t const& end, 
-                                                                       CompilationContext<string_type, string_adaptor>& context, 
-                                                                       Axis axis)
+                                                                       CompilationContext<string_type, string_adaptor>& context)
   {
+    Axis axis = getAxis(node);
     NodeTest<string_type, string_adaptor>* test = getTest(node, end, axis, context.namespaceContext());
     return new TestStepExpression<string_type, string_adaptor>(axis, test);
-    return 0;
   } // createStep
 
+  static PatternStep<string_type, string_adaptor>*
+                         createPatternStep(typename types<string_adaptor>::node_iter_t& node,
+                                           typename types<string_adaptor>::node_iter_t const& end,
+                                           CompilationContext<string_type, string_adaptor>& context)
+  {
+    Axis axis = getAxis(node);
+    std::unique_ptr<NodeTest<string_type, string_adaptor> > test(getTest(node, end, axis, context.namespaceContext()));
+    std::vector<XPathExpression_impl<string_type, string_adaptor>*> preds = createPredicates(node, end, context);
+
+    return new PatternStep<string_type, string_adaptor>(axis, test.release(), preds);
+  } // createPatternStep
+
 private:
   static Axis getAxis(typename types<string_adaptor>::node_iter_t& node)
   { 
@@ -335,7 +381,7 @@ private:
                                     typename types<string_adaptor>::node_iter_t const& end, 
                                     CompilationContext<string_type, string_adaptor>& context)
   {
-    std::vector<XPathExpression_impl<string_type, string_adaptor>*> preds;
+    Holder<std::vector<XPathExpression_impl<string_type, string_adaptor>*> > preds;
 
     while((node != end) && (getNodeId<string_adaptor>(node) == impl::Predicate_id))
     {
@@ -349,7 +395,7 @@ private:
       ++node;
     } // if ...
 
-    return preds;
+    return preds.release();
   } // createPredicates
 
   static NodeTest<string_type, string_adaptor>* getTest(typename types<string_adaptor>::node_iter_t& node, 
@@ -383,6 +429,8 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeQNameNodeTest<string_type, string_adaptor>(uri, name);
           }
+          if(axis == NAMESPACE) // namespaces aren't in a namespace
+            return new FailNodeTest<string_type, string_adaptor>();
           return new QNameNodeTest<string_type, string_adaptor>(uri, name);
         } //case QName_id
       
@@ -396,6 +444,8 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeNameNodeTest<string_type, string_adaptor>(name);
           }
+          if(axis == NAMESPACE)
+            return new NamespaceNameNodeTest<string_type, string_adaptor>(name);
           return new NameNodeTest<string_type, string_adaptor>(name);
         } // case NameNodeTest
 
@@ -434,6 +484,8 @@ private:
       case impl::NodeMatchPattern_id:
         {
           ++node;
+          if(axis == ATTRIBUTE)
+            return new AttributeNodeTest<string_type, string_adaptor>();
           return new NodeNodeTest<string_type, string_adaptor>();
         } // case NodeMatchPattern_id
 
@@ -445,6 +497,8 @@ private:
           ++node;
           if(axis == ATTRIBUTE)
             return new AttributeNodeTest<string_type, string_adaptor>();
+          if(axis == NAMESPACE)
+            return new NamespaceNodeTest<string_type, string_adaptor>();
           return new StarNodeTest<string_type, string_adaptor>();
         } // case AnyName_id:
 
@@ -460,6 +514,8 @@ private:
               return new FailNodeTest<string_type, string_adaptor>();
             return new AttributeQStarNodeTest<string_type, string_adaptor>(uri);
           }
+          if(axis == NAMESPACE)
+            return new FailNodeTest<string_type, string_adaptor>();
           return new QStarNodeTest<string_type, string_adaptor>(uri);
         } // case 
     } // switch(id)
@@ -542,10 +598,15 @@ public:
     return XPathValue<string_type, string_adaptor>(new NodeSetValue<string_type, string_adaptor>(nodes));
   } // evaluate
 
+  virtual void scan(Expression_scanner<string_type, string_adaptor>& scanner) const
+  {
+    for(typename StepList<string_type, string_adaptor>::const_iterator i = steps_.begin(); i != steps_.end(); ++i)
+      (*i)->scan(scanner);
+    scanner.scan(this);
+  } // scan
+
 private:
   StepList<string_type, string_adaptor> steps_;
-
-  friend class MatchExpr<string_type, string_adaptor>;
 }; // RelativeLocationPath
 
 template<class string_type, class string_adaptor>
@@ -557,13 +618,8 @@ public:
 
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& context, const ExecutionContext<string_type, string_adaptor>& executionContext) const
   {
-    int type = context.getNodeType();
-    if((type == DOM::Node_base::DOCUMENT_NODE) || 
-       (type == DOM::Node_base::DOCUMENT_FRAGMENT_NODE))
-      return RelativeLocationPath<string_type, string_adaptor>::evaluate(context, executionContext);
-    
-    DOM::Document<string_type, string_adaptor> document = context.getOwnerDocument();
-    return RelativeLocationPath<string_type, string_adaptor>::evaluate(document, executionContext);
+    // usually a document, but could be a document fragment
+    return RelativeLocationPath<string_type, string_adaptor>::evaluate(ultimate_parent(context), executionContext);
   } // evaluate
 }; // class AbsoluteLocationPath
 
-- 
2.43.0


From 159d7eac6aa0c5730ebe7dd4766a0412c53651c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 046/106] fix: allow current() in XSLT expressions outside
 match patterns, and restore the previous permission after one

---
 include/XSLT/impl/xslt_compilation_context.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index b881fd1..5353197 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -43,7 +43,7 @@ public:
     parser_(parser),
     stylesheet_(stylesheet),
     autoNs_(1),
-    current_allowed_(false),
+    current_allowed_(true),
     variables_allowed_(true),    
     precedence_(Precedence::InitialPrecedence())
   {
@@ -288,10 +288,11 @@ private:
   class Disallow
   { 
     public:
-      Disallow(bool& allow) : allow_(allow) { allow_ = false; }
-      ~Disallow() { allow_ = true; }
+      Disallow(bool& allow) : allow_(allow), previous_(allow) { allow_ = false; }
+      ~Disallow() { allow_ = previous_; }
     private:
       bool& allow_;
+      const bool previous_;
   }; // DisallowCurrent 
 }; // class CompilationContext
 
-- 
2.43.0


From 6b52e90e56bf03d22c2154e38c1ac9478ec5f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:19 +0000
Subject: [PATCH 047/106] fix: node tests that depend on an axis's principal
 node type live with the steps that need them

---
 include/Makefile.am                          |  1 +
 include/XPath/impl/xpath_node_test.hpp       | 53 +++---------
 include/XPath/impl/xpath_principal_nodes.hpp | 86 ++++++++++++++++++++
 include/XPath/impl/xpath_step.hpp            | 18 ++--
 4 files changed, 110 insertions(+), 48 deletions(-)
 create mode 100644 include/XPath/impl/xpath_principal_nodes.hpp

diff --git a/include/Makefile.am b/include/Makefile.am
index 622c2e2..18ddf47 100644
--- a/include/Makefile.am
+++ b/include/Makefile.am
@@ -175,6 +175,7 @@ xpath_headers =	XPath/XPath.hpp \
 	XPath/impl/xpath_pattern.hpp \
 	XPath/impl/xpath_relational.hpp \
 	XPath/impl/xpath_node_test.hpp \
+	XPath/impl/xpath_principal_nodes.hpp \
 	XPath/impl/xpath_ast.hpp \
 	XPath/impl/xpath_namespace_context.hpp \
 	XPath/impl/xpath_parser.hpp \
diff --git a/include/XPath/impl/xpath_node_test.hpp b/include/XPath/impl/xpath_node_test.hpp
index 57d0422..a7de3a1 100644
--- a/include/XPath/impl/xpath_node_test.hpp
+++ b/include/XPath/impl/xpath_node_test.hpp
@@ -63,7 +63,8 @@ public:
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    return (node.getNodeType() == DOM::Node_base::ELEMENT_NODE) && 
+    int type = node.getNodeType();
+    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
            (name_ == node.getNodeName()) &&
            (string_adaptor::empty(node.getNamespaceURI()));
   } // test
@@ -100,7 +101,8 @@ public:
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    return (node.getNodeType() == DOM::Node_base::ELEMENT_NODE) && 
+    int type = node.getNodeType();
+    return (type == DOM::Node_base::ELEMENT_NODE || type == NAMESPACE_NODE_TYPE) && 
            (name_ == node.getLocalName()) &&
            (uri_ == node.getNamespaceURI());
   } // test
@@ -138,7 +140,9 @@ public:
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
-    return node.getNodeType() == DOM::Node_base::ELEMENT_NODE;
+    int type = node.getNodeType();
+    return (type == DOM::Node_base::ELEMENT_NODE ||
+            type == NAMESPACE_NODE_TYPE);
   } // test
 }; // class StarNodeTest
 
@@ -160,37 +164,6 @@ private:
   string_type uri_;
 }; // clase QStarNodeTest
 
-// for the namespace axis, whose principal node type is namespace
-template<class string_type, class string_adaptor>
-class NamespaceNodeTest : public NodeTest<string_type, string_adaptor>
-{
-public:
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NamespaceNodeTest(); }
-
-  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
-  {
-    return node.getNodeType() == NAMESPACE_NODE_TYPE;
-  } // test
-}; // class NamespaceNodeTest
-
-template<class string_type, class string_adaptor>
-class NamespaceNameNodeTest : public NamespaceNodeTest<string_type, string_adaptor>
-{
-  typedef NamespaceNodeTest<string_type, string_adaptor> baseT;
-public:
-  NamespaceNameNodeTest(const string_type& prefix) : baseT(), prefix_(prefix) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NamespaceNameNodeTest(prefix_); }
-
-  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
-  {
-    return baseT::operator()(node) &&
-           (prefix_ == node.getLocalName());
-  } // test
-
-private:
-  string_type prefix_;
-}; // class NamespaceNameNodeTest
-
 template<class string_type, class string_adaptor>
 class TextNodeTest : public NodeTest<string_type, string_adaptor>
 {
@@ -262,26 +235,22 @@ template<class string_type, class string_adaptor>
 class ProcessingInstructionNodeTest : public NodeTest<string_type, string_adaptor>
 {
 public:
-  ProcessingInstructionNodeTest() : any_target_(true), target_() { }
-  ProcessingInstructionNodeTest(const string_type& target) : any_target_(false), target_(target) { }
-  virtual NodeTest<string_type, string_adaptor>* clone() const 
-  { 
-    return any_target_ ? new ProcessingInstructionNodeTest() : new ProcessingInstructionNodeTest(target_); 
-  } // clone
+  ProcessingInstructionNodeTest() : target_() { }
+  ProcessingInstructionNodeTest(const string_type& target) : target_(target) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new ProcessingInstructionNodeTest(target_); }
 
   virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
   {
     if(node.getNodeType() != DOM::Node_base::PROCESSING_INSTRUCTION_NODE)
       return false;
 
-    if(any_target_)
+    if(string_adaptor::empty(target_))
       return true;
 
     return node.getNodeName() == target_;
   } // test
 
 private:
-  bool any_target_;
   string_type target_;
 }; // ProcessingInstructionNodeTest
 
diff --git a/include/XPath/impl/xpath_principal_nodes.hpp b/include/XPath/impl/xpath_principal_nodes.hpp
new file mode 100644
index 0000000..94b1b55
--- /dev/null
+++ b/include/XPath/impl/xpath_principal_nodes.hpp
@@ -0,0 +1,86 @@
+#ifndef ARABICA_XPATHIC_XPATH_PRINCIPAL_NODES_HPP
+#define ARABICA_XPATHIC_XPATH_PRINCIPAL_NODES_HPP
+
+#include <memory>
+#include "xpath_node_test.hpp"
+
+namespace Arabica
+{
+namespace XPath
+{
+namespace impl
+{
+
+// names and * only select nodes of the axis's principal node type.
+// this is for the axes where that's element
+template<class string_type, class string_adaptor>
+class PrincipalElement : public NodeTest<string_type, string_adaptor>
+{
+  typedef NodeTest<string_type, string_adaptor> NodeTestT;
+public:
+  explicit PrincipalElement(NodeTestT* test) : test_(test) { }
+  virtual NodeTestT* clone() const { return new PrincipalElement(test_->clone()); }
+
+  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+  {
+    return (node.getNodeType() == DOM::Node_base::ELEMENT_NODE) && (*test_)(node);
+  } // test
+
+private:
+  std::unique_ptr<NodeTestT> test_;
+}; // class PrincipalElement
+
+// and these are for the namespace axis, whose principal node type is namespace
+template<class string_type, class string_adaptor>
+class PrincipalNamespace : public NodeTest<string_type, string_adaptor>
+{
+public:
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new PrincipalNamespace(); }
+
+  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+  {
+    return node.getNodeType() == NAMESPACE_NODE_TYPE;
+  } // test
+}; // class PrincipalNamespace
+
+template<class string_type, class string_adaptor>
+class NamedNamespace : public PrincipalNamespace<string_type, string_adaptor>
+{
+  typedef PrincipalNamespace<string_type, string_adaptor> baseT;
+public:
+  explicit NamedNamespace(const string_type& prefix) : baseT(), prefix_(prefix) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NamedNamespace(prefix_); }
+
+  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+  {
+    return baseT::operator()(node) &&
+           (prefix_ == node.getLocalName());
+  } // test
+
+private:
+  string_type prefix_;
+}; // class NamedNamespace
+
+// a processing instruction with just this target, even if there can't be one
+template<class string_type, class string_adaptor>
+class NamedProcessingInstruction : public NodeTest<string_type, string_adaptor>
+{
+public:
+  explicit NamedProcessingInstruction(const string_type& target) : target_(target) { }
+  virtual NodeTest<string_type, string_adaptor>* clone() const { return new NamedProcessingInstruction(target_); }
+
+  virtual bool operator()(const DOM::Node<string_type, string_adaptor>& node) const
+  {
+    return (node.getNodeType() == DOM::Node_base::PROCESSING_INSTRUCTION_NODE) &&
+           (target_ == node.getNodeName());
+  } // test
+
+private:
+  string_type target_;
+}; // class NamedProcessingInstruction
+
+} // namespace impl
+} // namespace XPath
+} // namespace Arabica
+
+#endif
diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index e917499..9ebac18 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -7,6 +7,7 @@
 #include "xpath_value.hpp"
 #include "xpath_axis_enumerator.hpp"
 #include "xpath_node_test.hpp"
+#include "xpath_principal_nodes.hpp"
 #include "xpath_ast.hpp"
 #include "xpath_ast_ids.hpp"
 #include "xpath_namespace_context.hpp"
@@ -398,6 +399,11 @@ private:
     return preds.release();
   } // createPredicates
 
+  static NodeTest<string_type, string_adaptor>* principalElement(NodeTest<string_type, string_adaptor>* test)
+  {
+    return new PrincipalElement<string_type, string_adaptor>(test);
+  } // principalElement
+
   static NodeTest<string_type, string_adaptor>* getTest(typename types<string_adaptor>::node_iter_t& node, 
                                         typename types<string_adaptor>::node_iter_t const& end, 
                                         Axis axis, 
@@ -431,7 +437,7 @@ private:
           }
           if(axis == NAMESPACE) // namespaces aren't in a namespace
             return new FailNodeTest<string_type, string_adaptor>();
-          return new QNameNodeTest<string_type, string_adaptor>(uri, name);
+          return principalElement(new QNameNodeTest<string_type, string_adaptor>(uri, name));
         } //case QName_id
       
       case impl::NCName_id:
@@ -445,8 +451,8 @@ private:
             return new AttributeNameNodeTest<string_type, string_adaptor>(name);
           }
           if(axis == NAMESPACE)
-            return new NamespaceNameNodeTest<string_type, string_adaptor>(name);
-          return new NameNodeTest<string_type, string_adaptor>(name);
+            return new NamedNamespace<string_type, string_adaptor>(name);
+          return principalElement(new NameNodeTest<string_type, string_adaptor>(name));
         } // case NameNodeTest
 
       case impl::Comment_id:
@@ -469,7 +475,7 @@ private:
           
           string_type target = string_adaptor::construct(node->value.begin(), node->value.end());
           ++node;
-          return new ProcessingInstructionNodeTest<string_type, string_adaptor>(target);
+          return new NamedProcessingInstruction<string_type, string_adaptor>(target);
         } // case ProcessingInstruction_id
       
       case impl::SlashSlash_id:
@@ -498,8 +504,8 @@ private:
           if(axis == ATTRIBUTE)
             return new AttributeNodeTest<string_type, string_adaptor>();
           if(axis == NAMESPACE)
-            return new NamespaceNodeTest<string_type, string_adaptor>();
-          return new StarNodeTest<string_type, string_adaptor>();
+            return new PrincipalNamespace<string_type, string_adaptor>();
+          return principalElement(new StarNodeTest<string_type, string_adaptor>());
         } // case AnyName_id:
 
       case impl::NameTest_id:
-- 
2.43.0


From c61865cbb95ff2f0b8e3f10edcaf118367384bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 048/106] fix: xsl:apply-imports uses the mode and import level
 of the template it is in

The stylesheet remembered only the last template chosen, so once that had applied or called another, even in a different mode, xsl:apply-imports carried on from there.
---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  8 ++--
 include/XSLT/impl/xslt_execution_context.hpp  | 46 ++++++++++++++++++-
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 86f1763..a96bfe3 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -228,7 +228,7 @@ public:
 
   void applyImports(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
-    doApplyTemplates(node, context, current_mode_, current_generation_);
+    doApplyTemplates(node, context, context.currentMode(), context.currentGeneration());
   } // applyImports
 
 private:
@@ -245,12 +245,9 @@ private:
         lower_precedences.push_back(ts->first);
     std::sort(lower_precedences.rbegin(), lower_precedences.rend());
 
-    current_mode_ = mode;
-
     for(std::vector<Precedence>::const_iterator p = lower_precedences.begin(), pe = lower_precedences.end(); p != pe; ++p)
     { 
-      current_generation_ = *p;
-      ModeTemplates ts = templates_.find(current_generation_)->second;
+      const ModeTemplates& ts = templates_.find(*p)->second;
       ModeTemplatesIterator mt = ts.find(mode);
       if(mt != ts.end())
       {
@@ -258,6 +255,7 @@ private:
 	      for(MatchTemplatesIterator t = templates.begin(), te = templates.end(); t != te; ++t)
 	        if(t->match().evaluate(node, context.xpathContext()))
 	        {
+	          CurrentTemplateRule<string_type, string_adaptor> rule(context, mode, *p);
 	          t->action()->execute(node, context);
 	          return;
 	        } // if ...
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 5ef9df4..dbc75d0 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -14,6 +14,7 @@ template<class string_type, class string_adaptor> class CompiledStylesheet;
 template<class string_type, class string_adaptor> class ExecutionContext;
 template<class string_type, class string_adaptor> class StackFrame;
 template<class string_type, class string_adaptor> class ChainStackFrame;
+template<class string_type, class string_adaptor> class CurrentTemplateRule;
 
 template<class string_type, class string_adaptor>
 class Variable_declaration
@@ -57,8 +58,11 @@ public:
     stack_(rhs.stack_),
     sink_(output.asOutput()),
     message_sink_(rhs.message_sink_),
-    to_msg_(false)
+    to_msg_(false),
+    current_mode_(rhs.current_mode_),
+    current_generation_(rhs.current_generation_)
   {
+    stack_.forgetPassedParams();
 		xpathContext_.setVariableResolver(stack_);
     sink_.set_warning_sink(message_sink_.asOutput());
     message_sink_.asOutput().set_warning_sink(message_sink_.asOutput());
@@ -104,6 +108,10 @@ public:
     return old;
   } // setLast
 
+  // how the template being executed was chosen, for xsl:apply-imports
+  const string_type& currentMode() const { return current_mode_; }
+  const Precedence& currentGeneration() const { return current_generation_; }
+
 private:
   void pushStackFrame() { stack_.pushScope(); }
   void chainStackFrame() { stack_.chainScope(); }
@@ -116,9 +124,12 @@ private:
   Output<string_type, string_adaptor>& sink_;
   StreamSink<string_type, string_adaptor> message_sink_;
   int to_msg_;
+  string_type current_mode_;
+  Precedence current_generation_;
 
   friend class StackFrame<string_type, string_adaptor> ;
   friend class ChainStackFrame<string_type, string_adaptor> ;
+  friend class CurrentTemplateRule<string_type, string_adaptor>;
 }; // class ExecutionContext
 
 ///////////////////////////
@@ -251,6 +262,39 @@ private:
 
 ///////////////////////////
 template<class string_type, class string_adaptor>
+class CurrentTemplateRule
+{
+public:
+  CurrentTemplateRule(ExecutionContext<string_type, string_adaptor>& context,
+                      const string_type& mode,
+                      const Precedence& generation) :
+    context_(context),
+    oldMode_(context.current_mode_),
+    oldGeneration_(context.current_generation_)
+  {
+    context_.current_mode_ = mode;
+    context_.current_generation_ = generation;
+  } // CurrentTemplateRule
+
+  ~CurrentTemplateRule()
+  {
+    context_.current_mode_ = oldMode_;
+    context_.current_generation_ = oldGeneration_;
+  } // ~CurrentTemplateRule
+
+private:
+  ExecutionContext<string_type, string_adaptor>& context_;
+  const string_type oldMode_;
+  const Precedence oldGeneration_;
+
+  CurrentTemplateRule(const CurrentTemplateRule&);
+  CurrentTemplateRule& operator=(const CurrentTemplateRule&);
+  bool operator==(const CurrentTemplateRule&) const;
+}; // class CurrentTemplateRule
+
+///////////////////////////
+// puts back the current node, its position and last when done
+template<class string_type, class string_adaptor>
 class LastFrame
 {
 public:
-- 
2.43.0


From ae1ecc24a3f41688439e8c6292d44e7133f7957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 049/106] fix: xsl:for-each and xsl:apply-templates put back
 the current node and position

Only last() was restored, so position() and current() were wrong in whatever came after.
---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  2 ++
 include/XSLT/impl/xslt_execution_context.hpp  | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index a96bfe3..b651532 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -105,6 +105,8 @@ public:
     ExecutionContext<string_type, string_adaptor> context(*this, output_.get(), *error_output_);
 
     // set up variables and so forth
+    context.setPosition(initialNode, 1);
+    context.setLast(1);
     for(ParamListIterator pi = params_.begin(), pe = params_.end(); pi != pe; ++pi)
       (*pi)->declare(context);
     for(VariableDeclListIterator ci = topLevelVars_.begin(), ce = topLevelVars_.end(); ci != ce; ++ci)
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index dbc75d0..7a76633 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -298,24 +298,33 @@ template<class string_type, class string_adaptor>
 class LastFrame
 {
 public:
-  LastFrame(ExecutionContext<string_type, string_adaptor>& context, int last) : context_(context) 
+  LastFrame(ExecutionContext<string_type, string_adaptor>& context, int last) : 
+    context_(context),
+    oldCurrent_(context.xpathContext().currentNode()),
+    oldPosition_(context.xpathContext().position()),
+    oldLast_(context.setLast(last))
   { 
-    oldLast_ = context_.setLast(last);
   } // LastFrame
 
-  LastFrame(ExecutionContext<string_type, string_adaptor>& context, size_t last) : context_(context) 
+  LastFrame(ExecutionContext<string_type, string_adaptor>& context, size_t last) : 
+    context_(context),
+    oldCurrent_(context.xpathContext().currentNode()),
+    oldPosition_(context.xpathContext().position()),
+    oldLast_(context.setLast(static_cast<int>(last)))
   { 
-    oldLast_ = context_.setLast(static_cast<int>(last));
   } // LastFrame
 
   ~LastFrame()
   {
     context_.setLast(oldLast_);
+    context_.setPosition(oldCurrent_, oldPosition_);
   } // ~LastFrame
 
 private:
   ExecutionContext<string_type, string_adaptor>& context_;
-  int oldLast_;
+  const DOM::Node<string_type, string_adaptor> oldCurrent_;
+  const int oldPosition_;
+  const int oldLast_;
 
   LastFrame(const LastFrame&);
   LastFrame& operator=(const LastFrame&);
-- 
2.43.0


From 6e52deceea5fd651aceca64a183c26d3d344e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 050/106] fix: XSLT processes the children XPath sees

Built-in rules, xsl:apply-templates and xsl:copy-of walked DOM children, so split adjacent text and CDATA sections and looked at doctypes.  xsl:copy-of copies in document order.
---
 include/XSLT/impl/xslt_apply_templates.hpp    |  7 +++----
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 21 ++++++++-----------
 include/XSLT/impl/xslt_copy.hpp               |  7 ++++---
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/include/XSLT/impl/xslt_apply_templates.hpp b/include/XSLT/impl/xslt_apply_templates.hpp
index 1a423ef..91101f0 100644
--- a/include/XSLT/impl/xslt_apply_templates.hpp
+++ b/include/XSLT/impl/xslt_apply_templates.hpp
@@ -32,15 +32,14 @@ public:
 
     if(!SortableT::has_sort() && select_ == 0)
     {
-      if(node.hasChildNodes())
-        context.stylesheet().applyTemplates(node.getChildNodes(), context, mode_);
+      context.stylesheet().applyTemplatesToChildren(node, context, mode_);
       return;
     }
 
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes;
     if(select_ == 0)
-      for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-        nodes.push_back(n);
+      for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> n(node, Arabica::XPath::CHILD); *n != 0; ++n)
+        nodes.push_back(*n);
     else
     {
       Arabica::XPath::XPathValue<string_type, string_adaptor> value = select_->evaluate(node, context.xpathContext());
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index b651532..fe2ff1f 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -48,7 +48,6 @@ public:
   typedef Arabica::XPath::XPathValue<string_type, string_adaptor> Value;
   typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
   typedef DOM::Node<string_type, string_adaptor> DOMNode;
-  typedef DOM::NodeList<string_type, string_adaptor> DOMNodeList;
 
   CompiledStylesheet() :
       output_(new StreamSink<string_type, string_adaptor>(streams::out())),
@@ -194,16 +193,14 @@ public:
     }
   } // applyTemplates
 
-  void applyTemplates(const DOMNodeList& nodes, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const 
+  // the children of the node, as XPath sees them
+  void applyTemplatesToChildren(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const
   {
-    // entirely simple so far
-    LastFrame<string_type, string_adaptor> last(context, (size_t)nodes.getLength());
-    for(int i = 0, ie = nodes.getLength(); i != ie; ++i)
-    {
-      context.setPosition(nodes.item(i), i+1);
-      doApplyTemplates(nodes.item(i), context, mode, Precedence::FrozenPrecedence());
-    }
-  } // applyTemplates
+    NodeSet nodes;
+    for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> child(node, Arabica::XPath::CHILD); *child != 0; ++child)
+      nodes.push_back(*child);
+    applyTemplates(nodes, context, mode);
+  } // applyTemplatesToChildren
 
   void applyTemplates(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, const string_type& mode) const
   {
@@ -275,12 +272,12 @@ private:
       case DOM::Node_base::DOCUMENT_NODE:
       case DOM::Node_base::DOCUMENT_FRAGMENT_NODE:
       case DOM::Node_base::ELEMENT_NODE:
-        applyTemplates(node.getChildNodes(), context, mode);
+        applyTemplatesToChildren(node, context, mode);
         break;
       case DOM::Node_base::ATTRIBUTE_NODE:
       case DOM::Node_base::TEXT_NODE:
       case DOM::Node_base::CDATA_SECTION_NODE:
-        context.sink().characters(node.getNodeValue());
+        context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
 	/*
         {
           const string_type& ch = node.getNodeValue();
diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index 1e839fd..d05c1fb 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -55,7 +55,7 @@ protected:
       break;
     case DOM::Node_base::TEXT_NODE:
     case DOM::Node_base::CDATA_SECTION_NODE:
-      context.sink().characters(node.getNodeValue());
+      context.sink().characters(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(node));
       break;
     } // switch
   } // execute
@@ -119,6 +119,7 @@ public:
     } 
 
     Arabica::XPath::NodeSet<string_type, string_adaptor> nodes = value.asNodeSet();
+    nodes.to_document_order();
     for(typename Arabica::XPath::NodeSet<string_type, string_adaptor>::const_iterator n = nodes.begin(), e = nodes.end(); n != e; ++n)
       this->copy(*n, context);
   } // execute
@@ -133,8 +134,8 @@ protected:
         this->copy(attrs.item(a), context);
     } // if ...
 
-    for(DOM::Node<string_type, string_adaptor> n = node.getFirstChild(); n != 0; n = n.getNextSibling())
-      this->copy(n, context);
+    for(Arabica::XPath::AxisEnumerator<string_type, string_adaptor> n(node, Arabica::XPath::CHILD); *n != 0; ++n)
+      this->copy(*n, context);
   } // process_content
 
 private:
-- 
2.43.0


From 657f9f51f9c44a4091741274979008f3dc0cc04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 051/106] fix: variables with content are result tree fragments

They were node sets of the content, so string(), comparisons and so on looked at only the first node.
---
 include/XSLT/impl/xslt_apply_templates.hpp |  2 +-
 include/XSLT/impl/xslt_copy.hpp            |  3 +-
 include/XSLT/impl/xslt_for_each.hpp        |  3 +-
 include/XSLT/impl/xslt_item.hpp            |  2 +
 include/XSLT/impl/xslt_sink.hpp            |  2 +
 include/XSLT/impl/xslt_variable_impl.hpp   | 52 +++++++++++++++++++---
 6 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/include/XSLT/impl/xslt_apply_templates.hpp b/include/XSLT/impl/xslt_apply_templates.hpp
index 91101f0..37c5eaf 100644
--- a/include/XSLT/impl/xslt_apply_templates.hpp
+++ b/include/XSLT/impl/xslt_apply_templates.hpp
@@ -43,7 +43,7 @@ public:
     else
     {
       Arabica::XPath::XPathValue<string_type, string_adaptor> value = select_->evaluate(node, context.xpathContext());
-      if(value.type() != Arabica::XPath::NODE_SET)
+      if(!has_nodes(value))
         throw std::runtime_error("apply-templates select expression is not a node-set");
       nodes = value.asNodeSet();
     }
diff --git a/include/XSLT/impl/xslt_copy.hpp b/include/XSLT/impl/xslt_copy.hpp
index d05c1fb..e0795b1 100644
--- a/include/XSLT/impl/xslt_copy.hpp
+++ b/include/XSLT/impl/xslt_copy.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_COPY_HPP
 
 #include "xslt_item.hpp"
+#include "xslt_variable_impl.hpp"
 
 namespace Arabica
 {
@@ -112,7 +113,7 @@ public:
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     Arabica::XPath::XPathValue<string_type, string_adaptor> value = select_->evaluate(node, context.xpathContext());
-    if(value.type() != Arabica::XPath::NODE_SET)
+    if(!has_nodes(value))
     {
       context.sink().characters(value.asString());
       return;
diff --git a/include/XSLT/impl/xslt_for_each.hpp b/include/XSLT/impl/xslt_for_each.hpp
index b332141..3043999 100644
--- a/include/XSLT/impl/xslt_for_each.hpp
+++ b/include/XSLT/impl/xslt_for_each.hpp
@@ -3,6 +3,7 @@
 
 #include "xslt_item.hpp"
 #include "xslt_sort.hpp"
+#include "xslt_variable_impl.hpp"
 
 namespace Arabica
 {
@@ -36,7 +37,7 @@ public:
                        ExecutionContext<string_type, string_adaptor>& context) const
   {
     XPathValue sel = select_->evaluate(node, context.xpathContext());
-    if(sel.type() != Arabica::XPath::NODE_SET)
+    if(!has_nodes(sel))
       throw SAX::SAXException("xsl:for-each must select a node set");
 
     NodeSet nodes = sel.asNodeSet();
diff --git a/include/XSLT/impl/xslt_item.hpp b/include/XSLT/impl/xslt_item.hpp
index 7f5762d..a2653d5 100644
--- a/include/XSLT/impl/xslt_item.hpp
+++ b/include/XSLT/impl/xslt_item.hpp
@@ -35,6 +35,8 @@ protected:
       (*ci)->execute(node, context);
   } // execute
 
+  bool has_children() const { return !children_.empty(); }
+
 public:
   void add_item(Item<string_type, string_adaptor>* child) 
   {
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 69303d4..baef718 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -367,6 +367,8 @@ public:
 
   virtual Output<string_type, string_adaptor>& asOutput() { return *this; }
   DOM::Node<string_type, string_adaptor> node() const { return documentFrag_; }
+  // as node(), but there's always something even if nothing was written
+  DOM::Node<string_type, string_adaptor> root() { current(); return documentFrag_; }
 
 protected:
   typedef typename Output<string_type, string_adaptor>::Settings Settings;
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 529dde5..97f7bfb 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -11,6 +11,48 @@ namespace Arabica
 namespace XSLT
 {
 
+// converts to strings, numbers and booleans, and compares, as a node-set containing just the root of the 
+// fragment does, which is as its string-value except that it's always true.  Used as a node-set it's the 
+// contents of the fragment.
+template<class string_type, class string_adaptor>
+class ResultTreeFragment : public Arabica::XPath::StringValue<string_type, string_adaptor>
+{
+  typedef Arabica::XPath::XPathValue<string_type, string_adaptor> XPathValue;
+  typedef Arabica::XPath::NodeSet<string_type, string_adaptor> NodeSet;
+  typedef DOM::Node<string_type, string_adaptor> DOMNode;
+
+public:
+  ResultTreeFragment(const DOMNode& root) :
+    Arabica::XPath::StringValue<string_type, string_adaptor>(Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(root)),
+    root_(root)
+  {
+    for(DOMNode n = root_.getFirstChild(); n != 0; n = n.getNextSibling())
+      contents_.push_back(n);
+  } // ResultTreeFragment
+
+  static XPathValue createValue(const DOMNode& root) { return XPathValue(new ResultTreeFragment(root)); }
+
+  virtual XPathValue evaluate(const DOMNode& /* context */, 
+                              const Arabica::XPath::ExecutionContext<string_type, string_adaptor>& /* executionContext */) const
+  {
+    return createValue(root_);
+  } // evaluate
+
+  virtual bool asBool() const { return true; }
+  virtual const NodeSet& asNodeSet() const { return contents_; }
+
+private:
+  const DOMNode root_;
+  NodeSet contents_;
+}; // class ResultTreeFragment
+
+template<class string_type, class string_adaptor>
+bool has_nodes(const Arabica::XPath::XPathValue<string_type, string_adaptor>& value)
+{
+  return (value.type() == Arabica::XPath::NODE_SET) ||
+         (dynamic_cast<const ResultTreeFragment<string_type, string_adaptor>*>(Arabica::XPath::XPathValuePtr<string_type, string_adaptor>(value).operator->()) != 0);
+} // has_nodes
+
 template<class string_type, class string_adaptor>
 class Variable_impl : public ItemContainer<string_type, string_adaptor>, public Variable_declaration<string_type, string_adaptor>
 {
@@ -43,16 +85,12 @@ public:
     if(select_)
       return select_->evaluate(node, context.xpathContext());
 
-    this->execute_children(node, context);
-
-    if(sink.node() == 0)
+    if(!this->has_children())
       return StringValue::createValue(string_adaptor::empty_string());
 
-    NodeSet nodeset;
-    for(DOMNode n = sink.node().getFirstChild(); n != 0; n = n.getNextSibling())
-      nodeset.push_back(n);
+    this->execute_children(node, context);
 
-    return NodeSetValue::createValue(nodeset);
+    return ResultTreeFragment<string_type, string_adaptor>::createValue(sink.root());
   } // value
 
   virtual const Precedence& precedence() const { return precedence_; }
-- 
2.43.0


From d87da87ec0e8ffde3565ee0a2192707c0922b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 052/106] fix: variables are only visible until the end of
 their parent element

---
 include/XSLT/impl/xslt_for_each.hpp      |  2 +-
 include/XSLT/impl/xslt_item.hpp          | 22 ++++++++++++++++++++++
 include/XSLT/impl/xslt_template.hpp      |  2 +-
 include/XSLT/impl/xslt_variable_impl.hpp |  1 +
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/xslt_for_each.hpp b/include/XSLT/impl/xslt_for_each.hpp
index 3043999..b1935aa 100644
--- a/include/XSLT/impl/xslt_for_each.hpp
+++ b/include/XSLT/impl/xslt_for_each.hpp
@@ -48,7 +48,7 @@ public:
     {
       ChainStackFrame<string_type, string_adaptor> frame(context);
       context.setPosition(nodes[n], n+1);
-      this->execute_children(nodes[n], context);
+      this->execute_in_frame(nodes[n], context);
     } // for ...
   } // execute
 
diff --git a/include/XSLT/impl/xslt_item.hpp b/include/XSLT/impl/xslt_item.hpp
index a2653d5..0d8fe69 100644
--- a/include/XSLT/impl/xslt_item.hpp
+++ b/include/XSLT/impl/xslt_item.hpp
@@ -7,6 +7,7 @@ namespace XSLT
 {
 
 template<class string_type, class string_adaptor> class ExecutionContext;
+template<class string_type, class string_adaptor> class ChainStackFrame;
 
 template<class string_type, class string_adaptor>
 class Item
@@ -17,19 +18,38 @@ public:
   } // ~Item
 
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const = 0;
+
+  // does this declare something for the items that follow it?
+  virtual bool is_declaration() const { return false; }
 }; // class Item
 
 template<class string_type, class string_adaptor>
 class ItemContainer : public Item<string_type, string_adaptor>
 {
 protected:
+  ItemContainer() : has_declarations_(false) { }
+
   virtual ~ItemContainer() 
   { 
     for(ChildrenIterator ci = children_.begin(), ce = children_.end(); ci != ce; ++ci)
       delete *ci;
   } // ~ItemContainer
 
+  // declarations are only good until the end of their parent
   void execute_children(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
+  {
+    if(!has_declarations_)
+    {
+      execute_in_frame(node, context);
+      return;
+    } // if ...
+
+    ChainStackFrame<string_type, string_adaptor> frame(context);
+    execute_in_frame(node, context);
+  } // execute_children
+
+  // as execute_children, when there's already a frame for the declarations
+  void execute_in_frame(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
     for(ChildrenIterator ci = children_.begin(), ce = children_.end(); ci != ce; ++ci)
       (*ci)->execute(node, context);
@@ -41,6 +61,7 @@ public:
   void add_item(Item<string_type, string_adaptor>* child) 
   {
     children_.push_back(child);
+    has_declarations_ = has_declarations_ || child->is_declaration();
   } // add_child
 
 private:
@@ -48,6 +69,7 @@ private:
   typedef typename Children::const_iterator ChildrenIterator;
 
   Children children_;
+  bool has_declarations_;
 }; // ItemContainer
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/xslt_template.hpp b/include/XSLT/impl/xslt_template.hpp
index 062d578..6f4a922 100644
--- a/include/XSLT/impl/xslt_template.hpp
+++ b/include/XSLT/impl/xslt_template.hpp
@@ -54,7 +54,7 @@ public:
 
   virtual void execute(const DOM::Node<string_type, string_adaptor>& node, ExecutionContext<string_type, string_adaptor>& context) const
   {
-    this->execute_children(node, context);
+    this->execute_in_frame(node, context);
   } // execute
 
   const MatchExprList& compiled_matches() const { return matches_; }
diff --git a/include/XSLT/impl/xslt_variable_impl.hpp b/include/XSLT/impl/xslt_variable_impl.hpp
index 97f7bfb..e6b3a3b 100644
--- a/include/XSLT/impl/xslt_variable_impl.hpp
+++ b/include/XSLT/impl/xslt_variable_impl.hpp
@@ -94,6 +94,7 @@ public:
   } // value
 
   virtual const Precedence& precedence() const { return precedence_; }
+  virtual bool is_declaration() const { return true; }
 
 private:
   string_type name_;
-- 
2.43.0


From 16f560d99e27c14394271e022a1690c8cdb59cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 053/106] fix: xsl:with-param values stay with the template
 they are passed to

Parameters leaked into templates used while working out other parameters, and a passed value kept the precedence of the passer so a redeclaration was not noticed.
---
 include/XSLT/impl/xslt_execution_context.hpp |  2 +-
 include/XSLT/impl/xslt_variable_stack.hpp    | 28 ++++++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 7a76633..be45ad8 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -207,7 +207,7 @@ void ExecutionContext<string_type, string_adaptor>::unpassParam(const string_typ
 template<class string_type, class string_adaptor>
 void ExecutionContext<string_type, string_adaptor>::declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param) 
 {
-  if(!stack_.findPassedParam(param.name()))
+  if(!stack_.findPassedParam(param.name(), param.precedence()))
     stack_.declareParam(VariableClosure<string_type, string_adaptor>::create(param, node, *this)); 
 } // declareParam
 
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index c896a3a..3b39a89 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -103,13 +103,20 @@ public:
     params_.back().erase(name);
   } // unpassParam
 
-  bool findPassedParam(const string_type& name)
+  // parameters being passed are for the template about to be invoked, they're no business of anything 
+  // invoked while working out another parameter's value
+  void forgetPassedParams()
+  {
+    params_.back().clear();
+  } // forgetPassedParams
+
+  bool findPassedParam(const string_type& name, const Precedence& precedence)
   {
     typename ScopeStack::reverse_iterator p = params_.rbegin()+1;    
     typename Scope::iterator i = p->find(name);
     if(i == p->end())
       return false;
-    declareVariable(i->second);
+    declareVariable(Variable_instance_ptr(new PassedParam(i->second, precedence)));
     return true;
   } // findPassedParam
 
@@ -178,6 +185,23 @@ public:
   } // resolveVariable
   
 private:
+  // a value passed by the caller, declared by an xsl:param
+  class PassedParam : public Variable_instance<string_type, string_adaptor>
+  {
+  public:
+    PassedParam(const Variable_instance_ptr& passed, const Precedence& precedence) : 
+      passed_(passed), precedence_(precedence) { }
+
+    virtual const string_type& name() const { return passed_->name(); }
+    virtual const Precedence& precedence() const { return precedence_; }
+    virtual XPathValue value() const { return passed_->value(); }
+    virtual void injectGlobalScope(const Scope& scope) const { passed_->injectGlobalScope(scope); }
+
+  private:
+    const Variable_instance_ptr passed_;
+    const Precedence precedence_;
+  }; // class PassedParam
+
   string_type make_clark_name(const string_type& namespace_uri, const string_type& name) const
   {
     string_type cn;
-- 
2.43.0


From 840a0f7d3d3f37bfa2ae0a18d15035092222be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 054/106] fix: key() matches attributes, string use
 expressions, and the document of the context node

---
 include/XSLT/impl/xslt_functions.hpp |  7 +--
 include/XSLT/impl/xslt_key.hpp       | 81 ++++++++++++++++++----------
 2 files changed, 58 insertions(+), 30 deletions(-)

diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 376fe30..2b583cc 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -112,20 +112,21 @@ protected:
 
     XPathValue a1 = baseT::arg(1, context, executionContext);
     if(a1.type() == Arabica::XPath::NODE_SET)
-      return nodeSetUnion(keyClarkName, a1.asNodeSet(), executionContext);
+      return nodeSetUnion(keyClarkName, a1.asNodeSet(), context, executionContext);
 
-    return keys_.lookup(keyClarkName, a1.asString(), executionContext);
+    return keys_.lookup(keyClarkName, a1.asString(), context, executionContext);
   } // doEvaluate
 
   NodeSet nodeSetUnion(const string_type& keyClarkName, 
                        const NodeSet nodes,
+                       const DOMNode& context,
 			      			     const XPathExecutionContext& executionContext) const
   {
     NodeSet results;
     for(typename NodeSet::const_iterator n = nodes.begin(), ne = nodes.end(); n != ne; ++n)
     {
       string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*n);
-      results.push_back(keys_.lookup(keyClarkName, id, executionContext));
+      results.push_back(keys_.lookup(keyClarkName, id, context, executionContext));
     } // for ...
     results.to_document_order();
     return results;
diff --git a/include/XSLT/impl/xslt_key.hpp b/include/XSLT/impl/xslt_key.hpp
index 2f820ac..5e46908 100644
--- a/include/XSLT/impl/xslt_key.hpp
+++ b/include/XSLT/impl/xslt_key.hpp
@@ -25,14 +25,18 @@ public:
   {
   } // Key
 
-  NodeSet lookup(const string_type& value, const XPathContext& context) const
+  NodeSet lookup(const string_type& value, const DOMNode& node, const XPathContext& context) const
   {
-    DOMNode doc = XPath::impl::get_owner_document(context.currentNode());
+    const DOMNode doc = XPath::impl::get_owner_document(node);
     DocumentNodeMapIterator nm = nodesPerDocument_.find(doc.underlying_impl());
     if(nm == nodesPerDocument_.end())
-      populate(nodesPerDocument_[doc.underlying_impl()], context);
+    {
+      NodeMap nodes;
+      populate(nodes, doc, context);
+      nm = nodesPerDocument_.insert(std::make_pair(doc.underlying_impl(), std::make_pair(doc, nodes))).first;
+    } // if ...
 
-    const NodeMap& nodes = nodesPerDocument_[doc.underlying_impl()];
+    const NodeMap& nodes = nm->second.second;
     NodeMapIterator f = nodes.find(value);
     if(f == nodes.end())
       return NodeSet(0);
@@ -40,37 +44,51 @@ public:
     return f->second;
   } // lookup
 
+  void forget() const { nodesPerDocument_.clear(); }
+
 private:
   typedef std::map<string_type, NodeSet> NodeMap;
   typedef typename NodeMap::const_iterator NodeMapIterator;
-  typedef std::map<DOM::Node_impl<string_type, string_adaptor>*, NodeMap> DocumentNodeMap;
+  typedef std::map<DOM::Node_impl<string_type, string_adaptor>*, std::pair<DOMNode, NodeMap> > DocumentNodeMap;
   typedef typename DocumentNodeMap::const_iterator DocumentNodeMapIterator;
-  typedef typename NodeSet::iterator NodeSetIterator;
+  typedef typename NodeSet::const_iterator NodeSetIterator;
   typedef typename MatchExprList::const_iterator MatchExprListIterator;
+  typedef XPath::AxisEnumerator<string_type, string_adaptor> AxisEnum;
  
-  void populate(NodeMap& nodes, const XPathContext& context) const
+  void populate(NodeMap& nodes, const DOMNode& doc, const XPathContext& context) const
   {
-    typedef XPath::AxisEnumerator<string_type, string_adaptor> AxisEnum;
-
-    DOMNode current = XPath::impl::get_owner_document(context.currentNode());
-
-    for(AxisEnum ae(current, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
+    for(AxisEnum ae(doc, XPath::DESCENDANT_OR_SELF); *ae != 0; ++ae)
     {
-      DOMNode node = *ae;
-      for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
-        if(me->evaluate(node, context))
-        {
-	        NodeSet ids = use_.evaluateAsNodeSet(node, context);
-	        for(NodeSetIterator i = ids.begin(), ie = ids.end(); i != ie; ++i)
-	        {
-	          string_type id = Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i);
-	          nodes[id].push_back(node);
-	        } // for ...
-          break;
-        } // if ...
-    } // for 
+      populate_from(nodes, *ae, context);
+      for(AxisEnum attr(*ae, XPath::ATTRIBUTE); *attr != 0; ++attr)
+        populate_from(nodes, *attr, context);
+    } // for ...
   } // populate
 
+  void populate_from(NodeMap& nodes, const DOMNode& node, const XPathContext& context) const
+  {
+    for(MatchExprListIterator me = matches_.begin(), mee = matches_.end(); me != mee; ++me)
+    {
+      if(!me->evaluate(node, context))
+        continue;
+
+      const Arabica::XPath::XPathValue<string_type, string_adaptor> ids = use_.evaluate(node, context);
+      if(ids.type() != Arabica::XPath::NODE_SET)
+        add(nodes, ids.asString(), node);
+      else
+        for(NodeSetIterator i = ids.asNodeSet().begin(), ie = ids.asNodeSet().end(); i != ie; ++i)
+          add(nodes, Arabica::XPath::impl::nodeStringValue<string_type, string_adaptor>(*i), node);
+      return;
+    } // for ...
+  } // populate_from
+
+  static void add(NodeMap& nodes, const string_type& id, const DOMNode& node)
+  {
+    NodeSet& withId = nodes[id];
+    if(withId.empty() || (withId[withId.size()-1] != node))
+      withId.push_back(node);
+  } // add
+
   MatchExprList matches_;
   XPathExpression use_;
   mutable DocumentNodeMap nodesPerDocument_;
@@ -99,6 +117,7 @@ public:
 
   NodeSet lookup(const string_type& name,
 	               const string_type& id,
+                 const DOM::Node<string_type, string_adaptor>& node,
                  const XPathContext& context) const
   {
     const KeysIterator k = keys_.find(name);
@@ -106,15 +125,23 @@ public:
       throw SAX::SAXException("No key named '" + string_adaptor::asStdString(name) + "' has been defined.");
     
     if(k->second.size() == 1)
-      return k->second[0]->lookup(id, context);
+      return k->second[0]->lookup(id, node, context);
     
     NodeSet nodes;
     for(KeyListIterator key = k->second.begin(), keye = k->second.end(); key != keye; ++key)    
-      nodes.push_back((*key)->lookup(id, context));
+      nodes.push_back((*key)->lookup(id, node, context));
     nodes.to_document_order();
     return nodes;
   } // lookup
 
+  // nodes are remembered for the duration of a transformation, the documents could change after that
+  void forget() const
+  {
+    for(KeysIterator i = keys_.begin(), ie = keys_.end(); i != ie; ++i)
+      for(KeyListIterator k = i->second.begin(), ke = i->second.end(); k != ke; ++k)
+        (*k)->forget();
+  } // forget
+
 private:
   typedef std::vector<Key<string_type, string_adaptor>*> KeyList;
   typedef typename std::vector<Key<string_type, string_adaptor>*>::const_iterator KeyListIterator;
-- 
2.43.0


From 2b37fa60a933403b267934507a62e8c9cfd47bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 055/106] fix: document() returns the same node for the same
 URI, and keys forget documents after a transformation

Keys were remembered by document address for the life of the stylesheet, so a changed document, or a new one at the same address, got old nodes.
---
 .../XSLT/impl/xslt_compilation_context.hpp    |  2 +-
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 49 ++++++++++++++++++-
 include/XSLT/impl/xslt_functions.hpp          | 23 +++++++--
 3 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 5353197..4bbde83 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -214,7 +214,7 @@ private:
 
     // document
     if(name == DocumentFunction<string_type, string_adaptor>::name())
-      return new DocumentFunction<string_type, string_adaptor>(parser_.currentBase(), argExprs);
+      return new DocumentFunction<string_type, string_adaptor>(stylesheet_.documents(), parser_.currentBase(), argExprs);
     // key
     if(name == KeyFunction<string_type, string_adaptor>::name())
       return new KeyFunction<string_type, string_adaptor>(stylesheet_.keys(), parser_.inScopeNamespaces(), argExprs);
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index fe2ff1f..650ed43 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -37,6 +37,27 @@ struct standard_stream<wchar_t>
   static std::basic_ostream<wchar_t>& err() { return std::wcerr; }
 };
 
+// the documents loaded by document() during a transformation
+template<class string_type, class string_adaptor>
+class LoadedDocuments
+{
+public:
+  typedef DOM::Node<string_type, string_adaptor> DOMNode;
+
+  LoadedDocuments() { }
+
+  bool contains(const string_type& uri) const { return documents_.find(uri) != documents_.end(); }
+  DOMNode get(const string_type& uri) const { return documents_.find(uri)->second; }
+  void add(const string_type& uri, const DOMNode& document) const { documents_.insert(std::make_pair(uri, document)); }
+  void forget() const { documents_.clear(); }
+
+private:
+  mutable std::map<string_type, DOMNode> documents_;
+
+  LoadedDocuments(const LoadedDocuments&);
+  LoadedDocuments& operator=(const LoadedDocuments&);
+}; // class LoadedDocuments
+
 template<class string_type, class string_adaptor>
 class CompiledStylesheet : public Stylesheet<string_type, string_adaptor>
 {
@@ -101,6 +122,7 @@ public:
     NodeSet ns;
     ns.push_back(initialNode);
 
+    const Transformation transformation(keys_, documents_);
     ExecutionContext<string_type, string_adaptor> context(*this, output_.get(), *error_output_);
 
     // set up variables and so forth
@@ -120,6 +142,7 @@ public:
 
   ////////////////////////////////////////
   const DeclaredKeys<string_type, string_adaptor>& keys() const { return keys_; }
+  const LoadedDocuments<string_type, string_adaptor>& documents() const { return documents_; }
 
   void add_template(Template<string_type, string_adaptor>* templat)
   {
@@ -306,6 +329,27 @@ private:
   } // set_parameter
 
 private:
+  // what has been gathered from documents is only good until the transformation ends
+  class Transformation
+  {
+  public:
+    Transformation(const DeclaredKeys<string_type, string_adaptor>& keys, 
+                   const LoadedDocuments<string_type, string_adaptor>& documents) : 
+      keys_(keys),
+      documents_(documents)
+    { 
+    } // Transformation
+    ~Transformation() 
+    { 
+      keys_.forget();
+      documents_.forget();
+    } // ~Transformation
+  private:
+    const DeclaredKeys<string_type, string_adaptor>& keys_;
+    const LoadedDocuments<string_type, string_adaptor>& documents_;
+    Transformation& operator=(const Transformation&);
+  }; // class Transformation
+
   class MatchTemplate
   {
   public:
@@ -356,10 +400,11 @@ private:
   DeclaredKeys<string_type, string_adaptor> keys_;
   ParamList params_;
 
-  mutable string_type current_mode_;
-  mutable Precedence current_generation_;
+  LoadedDocuments<string_type, string_adaptor> documents_;
 
+  typedef std::map<string_type, Precedence> SettingsPrecedence;
   typename Output<string_type, string_adaptor>::Settings output_settings_;
+  SettingsPrecedence output_precedence_;
   typename Output<string_type, string_adaptor>::CDATAElements output_cdata_elements_;
   SinkHolder<string_type, string_adaptor> output_;
   mutable std::basic_ostream<typename string_adaptor::value_type>* error_output_;
diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 2b583cc..4f8e21f 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -31,9 +31,11 @@ public:
     return n;
   } // name
 
-  DocumentFunction(const string_type& currentBase, 
+  DocumentFunction(const LoadedDocuments<string_type, string_adaptor>& documents,
+                   const string_type& currentBase, 
                    const ArgList& args) :
       baseT(1, 2, args),
+      documents_(documents),
       baseURI_(currentBase)
   { } 
 
@@ -56,21 +58,32 @@ protected:
 private:
   void load_document(const string_type& location, NodeSet& nodes) const
   {
+    Arabica::io::URI base(string_adaptor::asStdString(baseURI_));
+    Arabica::io::URI absolute(base, string_adaptor::asStdString(location));
+    string_type uri = string_adaptor::construct_from_utf8(absolute.as_string().c_str());
+    if(documents_.contains(uri))
+    {
+      nodes.push_back(documents_.get(uri));
+      return;
+    } // if ...
+
     SAX2DOM::Parser<string_type, string_adaptor> domParser;
     SAX::CatchErrorHandler<string_type, string_adaptor> eh;
     domParser.setErrorHandler(eh);
 
-    Arabica::io::URI base(string_adaptor::asStdString(baseURI_));
-    Arabica::io::URI absolute(base, string_adaptor::asStdString(location));
-    SAX::InputSource<string_type, string_adaptor> is(string_adaptor::construct_from_utf8(absolute.as_string().c_str()));
+    SAX::InputSource<string_type, string_adaptor> is(uri);
     domParser.parse(is);
 
     if(!eh.errorsReported())
-      nodes.push_back(domParser.getDocument());
+    {
+      documents_.add(uri, domParser.getDocument());
+      nodes.push_back(documents_.get(uri));
+    } // if ...
     else
       std::cerr << eh.errors() << std::endl;
   } // load_document
 
+  const LoadedDocuments<string_type, string_adaptor>& documents_;
   string_type baseURI_; 
 }; // DocumentFunction
 
-- 
2.43.0


From d0f1ac107bee8936bda30826f1eb65a77c66ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 056/106] fix: generate-id() returns a name

---
 include/XSLT/impl/xslt_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_functions.hpp b/include/XSLT/impl/xslt_functions.hpp
index 4f8e21f..5fd867f 100644
--- a/include/XSLT/impl/xslt_functions.hpp
+++ b/include/XSLT/impl/xslt_functions.hpp
@@ -249,7 +249,7 @@ protected:
     } // if ...
 
     std::basic_ostringstream<typename string_adaptor::value_type> os;
-    os << node.underlying_impl();
+    os << "id" << node.underlying_impl(); // has to be a name
     return string_adaptor::construct(os.str());
   } // doEvaluate
 }; // class GenerateIdFunction
-- 
2.43.0


From d36b663689997061d91e023c5bfc0c19a2a1f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 057/106] fix: xsl:sort evaluates keys once, in the context of
 the unsorted list

Keys were evaluated during the sort with position() always 1, which disturbed the context.  A sort without a sub-sort was not a strict weak ordering when there were NaNs, and numeric keys convert from the string.
---
 include/XSLT/impl/xslt_sort.hpp | 204 +++++++++++++++-----------------
 1 file changed, 94 insertions(+), 110 deletions(-)

diff --git a/include/XSLT/impl/xslt_sort.hpp b/include/XSLT/impl/xslt_sort.hpp
index b02aa77..4ffcec0 100644
--- a/include/XSLT/impl/xslt_sort.hpp
+++ b/include/XSLT/impl/xslt_sort.hpp
@@ -35,39 +35,32 @@ public:
     delete sub_sort_;
   } // ~Sort
 
-  void set_context(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context)
+  // sorts the nodes, which should be in document order
+  template<class NodeSet>
+  void sort(const DOMNode& node, NodeSet& nodes, ExecutionContext<string_type, string_adaptor>& context) const
   {
-    context_ = &context;
-    const string_type datatype = datatype_->evaluateAsString(node, context_->xpathContext());
-    const string_type order = order_->evaluateAsString(node, context_->xpathContext());
-    const string_type caseorder = caseorder_->evaluateAsString(node, context_->xpathContext());
+    std::vector<Order> orders;
+    resolve(node, context, orders);
 
-    static AllowedValues<string_type> allowed_datatypes = makeAllowedValues(SC::text, SC::number);
-    static AllowedValues<string_type> allowed_orders = makeAllowedValues(SC::ascending, SC::descending);
-    static AllowedValues<string_type> allowed_case_orders = makeAllowedValues(SC::upper_first, SC::lower_first);
-    validate(SC::data_type, allowed_datatypes, datatype);
-    validate(SC::order, allowed_orders, order);
-    validate(SC::case_order, allowed_case_orders, caseorder);
-
-    if(datatype == SC::number)
-      if(order == SC::ascending)
-        sort_fn_ = &Sort::numberAscending;
-      else
-        sort_fn_ = &Sort::numberDescending;
-    else
-      if(order == SC::ascending)
-        sort_fn_ = &Sort::stringAscending;
-      else
-        sort_fn_ = &Sort::stringDescending;
+    std::vector<Row> rows;
+    rows.reserve(nodes.size());
+    {
+      // keys are evaluated with the unsorted nodes as the current node list
+      LastFrame<string_type, string_adaptor> last(context, nodes.size());
+      for(size_t n = 0, e = nodes.size(); n != e; ++n)
+      {
+        context.setPosition(nodes[n], n+1);
+        rows.push_back(Row(nodes[n]));
+        grab(nodes[n], context, orders, rows.back());
+      } // for ...
+    }
 
-    if(sub_sort_)
-      sub_sort_->set_context(node, context);
-  } // set_context
+    std::stable_sort(rows.begin(), rows.end(), RowCompare(orders));
 
-  bool operator()(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return (this->*sort_fn_)(n1, n2);
-  } // operator()
+    typename NodeSet::iterator i = nodes.begin();
+    for(typename std::vector<Row>::const_iterator r = rows.begin(), re = rows.end(); r != re; ++r, ++i)
+      *i = r->node;
+  } // sort
 
   void add_sub_sort(Sort* sort)
   {
@@ -78,7 +71,7 @@ public:
   } // add_sub_sort
 
 private:
-  void validate(const string_type& name, const AllowedValues<string_type>& allowed, const string_type& value)
+  void validate(const string_type& name, const AllowedValues<string_type>& allowed, const string_type& value) const
   {
     if(allowed.is_allowed(value))
       return;
@@ -89,75 +82,85 @@ private:
 
   } // validate
 
-  typedef bool(Sort::*sortFn)(const DOMNode& n1, const DOMNode& n2) const;
-  bool numberAscending(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return numberSort(n1, n2, nanAscending, std::less<double>());
-  } // numberAscending
-  bool numberDescending(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return numberSort(n1, n2, nanDescending, std::greater<double>());
-  } // numberDescending
-  static bool nanAscending(bool, bool nan2) 
+  struct Order
   {
-    return !nan2;
-  } // nanAscending
-  static bool nanDescending(bool nan1, bool)
+    Order(bool n, bool a) : number(n), ascending(a) { }
+    bool number;
+    bool ascending;
+  }; // struct Order
+
+  struct Row
   {
-    return !nan1;
-  } // nanDescending
-  template<class NanCompare, class NumberCompare>
-  bool numberSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
-                  NanCompare nanCompare, 
-                  NumberCompare compare) const
+    explicit Row(const DOMNode& n) : node(n) { }
+    DOMNode node;
+    std::vector<string_type> texts;
+    std::vector<double> numbers;
+  }; // struct Row
+
+  void resolve(const DOMNode& node, ExecutionContext<string_type, string_adaptor>& context, std::vector<Order>& orders) const
   {
-    double v1 = grabAsNumber(n1);
-    double v2 = grabAsNumber(n2);
+    const string_type datatype = datatype_->evaluateAsString(node, context.xpathContext());
+    const string_type order = order_->evaluateAsString(node, context.xpathContext());
+    const string_type caseorder = caseorder_->evaluateAsString(node, context.xpathContext());
 
-    bool nan1 = Arabica::XPath::isNaN(v1);
-    bool nan2 = Arabica::XPath::isNaN(v2);
+    static AllowedValues<string_type> allowed_datatypes = makeAllowedValues(SC::text, SC::number);
+    static AllowedValues<string_type> allowed_orders = makeAllowedValues(SC::ascending, SC::descending);
+    static AllowedValues<string_type> allowed_case_orders = makeAllowedValues(SC::upper_first, SC::lower_first);
+    validate(SC::data_type, allowed_datatypes, datatype);
+    validate(SC::order, allowed_orders, order);
+    validate(SC::case_order, allowed_case_orders, caseorder);
 
-    if(((nan1 && nan2) || (v1 == v2)) && (sub_sort_))
-      return (*sub_sort_)(n1, n2);
+    orders.push_back(Order(datatype == SC::number, order == SC::ascending));
 
-    if(nan1 || nan2)
-      return nanCompare(nan1, nan2);
+    if(sub_sort_)
+      sub_sort_->resolve(node, context, orders);
+  } // resolve
 
-    return compare(v1, v2);
-  } // numberSort
-  bool stringAscending(const DOMNode& n1, const DOMNode& n2) const
-  {
-    return stringSort(n1, n2, std::less<string_type>());
-  } // stringAscending
-  bool stringDescending(const DOMNode& n1, const DOMNode& n2) const
+  void grab(const DOMNode& node, 
+            ExecutionContext<string_type, string_adaptor>& context, 
+            const std::vector<Order>& orders,
+            Row& row) const
   {
-    return stringSort(n1, n2, std::greater<string_type>());
-  } // stringAscending
-  template<class StringCompare>
-  bool stringSort(const DOMNode& n1, 
-                  const DOMNode& n2, 
-                  StringCompare compare) const
+    const bool number = orders[row.texts.size()].number;
+    const string_type key = select_->evaluateAsString(node, context.xpathContext());
+    row.texts.push_back(number ? string_type() : key);
+    row.numbers.push_back(number ? Arabica::XPath::impl::stringAsNumber<string_type, string_adaptor>(key) : 0);
+
+    if(sub_sort_)
+      sub_sort_->grab(node, context, orders, row);
+  } // grab
+
+  class RowCompare
   {
-    string_type v1 = grabAsString(n1);
-    string_type v2 = grabAsString(n2);
+  public:
+    explicit RowCompare(const std::vector<Order>& orders) : orders_(orders) { }
 
-    if((v1 == v2) && (sub_sort_))
-      return (*sub_sort_)(n1, n2);
+    bool operator()(const Row& lhs, const Row& rhs) const
+    {
+      for(size_t k = 0, ke = orders_.size(); k != ke; ++k)
+      {
+        const Row& l = orders_[k].ascending ? lhs : rhs;
+        const Row& r = orders_[k].ascending ? rhs : lhs;
+        const bool number = orders_[k].number;
+        if(number ? lessNumber(l.numbers[k], r.numbers[k]) : (l.texts[k] < r.texts[k]))
+          return true;
+        if(number ? lessNumber(r.numbers[k], l.numbers[k]) : (r.texts[k] < l.texts[k]))
+          return false;
+      } // for ...
+      return false;
+    } // operator()
 
-    return compare(v1, v2);
-  } // stringSort
+  private:
+    // NaN comes before all other numbers
+    static bool lessNumber(double l, double r)
+    {
+      if(Arabica::XPath::isNaN(l) || Arabica::XPath::isNaN(r))
+        return Arabica::XPath::isNaN(l) && !Arabica::XPath::isNaN(r);
+      return l < r;
+    } // lessNumber
 
-  string_type grabAsString(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsString(n, context_->xpathContext());
-  } // grabAsString
-  double grabAsNumber(const DOMNode& n) const
-  {
-    context_->setPosition(n, 1);
-    return select_->evaluateAsNumber(n, context_->xpathContext());
-  } // grabAsString
+    const std::vector<Order>& orders_;
+  }; // class RowCompare
 
   XPathExpressionPtr select_;
   XPathExpressionPtr lang_;
@@ -165,8 +168,6 @@ private:
   XPathExpressionPtr order_;
   XPathExpressionPtr caseorder_;
   Sort* sub_sort_;
-  ExecutionContext<string_type, string_adaptor>* context_;
-  sortFn sort_fn_;
 
   Sort& operator=(const Sort&);
   bool operator==(const Sort&) const;
@@ -195,15 +196,10 @@ protected:
             NodeSet& nodes, 
             ExecutionContext<string_type, string_adaptor>& context) const
   {
-    if(!sort_)
-    {
-      if(!nodes.forward())
-        nodes.to_document_order();
-      return;
-    }
-
-    sort_->set_context(node, context);
-    std::stable_sort(nodes.begin(), nodes.end(), SortP(*sort_));
+    if(!nodes.forward())
+      nodes.to_document_order();
+    if(sort_)
+      sort_->sort(node, nodes, context);
   } // sort
 
   bool has_sort() const { return sort_ != 0; }
@@ -219,18 +215,6 @@ public:
 
 private:
   SortT* sort_;
-
-  struct SortP
-  {
-    SortP(SortT& sort) : sort_(sort) { }
-    bool operator()(const DOMNode& n1, const DOMNode& n2)
-    {
-      return sort_(n1, n2);
-    } // operator()
-
-  private:
-    SortT& sort_;
-  }; // struct SortP
 }; // class Sortable
 
 
-- 
2.43.0


From 243d19cff695262de9e68d8071e5bd6a8b8f1343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 058/106] fix: an attribute does not rebind a prefix its
 element has already used

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 56 ++++++++++++++--------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 46c732d..7ce7096 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -26,17 +26,20 @@ public:
   void reset()
   {
     scopes_.assign(1, Scope());
+    used_.assign(1, Scope());
     autoNs_ = 1;
   } // reset
 
   void pushScope()
   {
     scopes_.push_back(Scope());
+    used_.push_back(Scope());
   } // pushScope
 
   void popScope()
   {
     scopes_.pop_back();
+    used_.pop_back();
   } // popScope
 
   // makes sure namespaceURI is bound in the current scope, and returns the prefix it's bound to
@@ -49,31 +52,15 @@ public:
       return EMPTY_STRING;
     } // if ...
 
-    if(namespaceURI == SC::xml_uri)
-      return SC::xml;
-
-    if(findURI(given_prefix) == namespaceURI && !(attr && string_adaptor::empty(given_prefix)))
-      return given_prefix;
-
-    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
-      for(typename Scope::const_iterator i = ss->begin(), e = ss->end(); i != e; ++i)
-        if(i->second == namespaceURI && !string_adaptor::empty(i->first) && findURI(i->first) == namespaceURI)
-          return i->first;
-
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || 
-                 (given_prefix == SC::xmlns) || 
-                 (given_prefix == SC::xml) ||
-                 (scopes_.back().find(given_prefix) != scopes_.back().end());
-
-    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
-    scopes_.back()[prefix] = namespaceURI;
+    string_type prefix = bindNamespace(given_prefix, namespaceURI, attr);
+    used_.back()[prefix] = namespaceURI;
     return prefix;
   } // declareNamespace
 
   // adds a declaration to the current scope, provided the prefix isn't already spoken for
   void addNamespace(const string_type& prefix, const string_type& namespaceURI)
   {
-    if(findURI(prefix) != namespaceURI)
+    if(findURI(prefix) != namespaceURI && !isUsed(prefix))
       scopes_.back().insert(std::make_pair(prefix, namespaceURI));
   } // addNamespace
 
@@ -94,6 +81,36 @@ public:
 private:
   typedef std::vector<Scope> ScopeStack;
 
+  // has a name in the current scope already been written with this prefix?
+  bool isUsed(const string_type& prefix) const
+  {
+    return used_.back().find(prefix) != used_.back().end();
+  } // isUsed
+
+  string_type bindNamespace(const string_type& given_prefix, const string_type& namespaceURI, bool attr)
+  {
+    if(namespaceURI == SC::xml_uri)
+      return SC::xml;
+
+    if(findURI(given_prefix) == namespaceURI && !(attr && string_adaptor::empty(given_prefix)))
+      return given_prefix;
+
+    for(typename ScopeStack::const_reverse_iterator ss = scopes_.rbegin(), se = scopes_.rend(); ss != se; ++ss)
+      for(typename Scope::const_iterator i = ss->begin(), e = ss->end(); i != e; ++i)
+        if(i->second == namespaceURI && !string_adaptor::empty(i->first) && findURI(i->first) == namespaceURI)
+          return i->first;
+
+    bool remap = (attr && string_adaptor::empty(given_prefix)) || 
+                 (given_prefix == SC::xmlns) || 
+                 (given_prefix == SC::xml) ||
+                 isUsed(given_prefix) ||
+                 (scopes_.back().find(given_prefix) != scopes_.back().end());
+
+    string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
+    scopes_.back()[prefix] = namespaceURI;
+    return prefix;
+  } // bindNamespace
+
   string_type autoNamespacePrefix()
   {
     string_type prefix;
@@ -108,6 +125,7 @@ private:
   } // autoNamespacePrefix
 
   ScopeStack scopes_;
+  ScopeStack used_;
   string_type EMPTY_STRING;
   unsigned int autoNs_;
 }; // class NamespaceStack
-- 
2.43.0


From 0ea96c104068600a8efb51c3adc3014c6219b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 059/106] fix: an empty string does not end the attributes of
 an element

---
 include/XSLT/impl/xslt_output.hpp | 14 ++++++++++++++
 include/XSLT/impl/xslt_sink.hpp   |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f3c1345..5fbe948 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -25,6 +25,7 @@ protected:
     buffering_(0),
     pending_element_(false),
     pending_text_(false),
+    empty_text_(false),
     pending_attribute_(-1),
     text_mode_(false),
     warning_sink_(0)
@@ -45,6 +46,7 @@ public:
     buffering_ = 0;
     pending_element_ = false;
     pending_text_ = false;
+    empty_text_ = false;
     pending_attribute_ = -1;
     element_stack_ = std::stack<QName<string_type, string_adaptor> >();
     namespaceStack_.reset();
@@ -80,6 +82,7 @@ public:
 
     atts_.clear();
     pending_element_ = true;
+    empty_text_ = false;
 
     return true;
   } // start_element
@@ -189,6 +192,12 @@ public:
       return;
     } // if ...
 
+    if(string_adaptor::empty(ch)) // no text node is created for an empty string, so attributes may still follow
+    {
+      empty_text_ = pending_element_;
+      return;
+    } // if ...
+
     flush_element();
 
     if(pending_attribute_ != -1)
@@ -354,6 +363,10 @@ private:
 
     do_start_element(element_stack_.top().qname, element_stack_.top().namespaceURI, atts_);
     pending_element_ = false;
+
+    if(empty_text_)
+      do_characters(string_adaptor::empty_string());
+    empty_text_ = false;
   } // flush_element
 
   bool isCDATA()
@@ -395,6 +408,7 @@ private:
   int buffering_;
   bool pending_element_;
   bool pending_text_;
+  bool empty_text_;
   int pending_attribute_;
   bool text_mode_;
   Output* warning_sink_;
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index baef718..f74d2b7 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -390,6 +390,9 @@ protected:
 
   void do_characters(const string_type& ch)
   {
+    if(string_adaptor::empty(ch))
+      return;
+
     DOM::Node<string_type, string_adaptor> lc = current().getLastChild();
     if(lc == 0 || lc.getNodeType() != DOM::Node_base::TEXT_NODE)
       current().appendChild(document().createTextNode(ch));
-- 
2.43.0


From c66f518a319a9c92f2f3a37a76fdfbcede0335b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 060/106] fix: indented DOM output does not change text

Indentation was added next to text, starting with a carriage return.
---
 include/XSLT/impl/xslt_sink.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index f74d2b7..180cac2 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -474,11 +474,10 @@ private:
     if(indent_ == -1)
       return;
 
-    string_type sps;
-    if(indent_ != 0)
+    if(indent_ != 0 && !after_text())
     {
       std::basic_string<typename string_adaptor::value_type> sps;
-      sps += SC::CARRIAGE_RETURN;
+      sps += SC::LINE_FEED;
       std::fill_n(std::back_inserter<std::basic_string<typename string_adaptor::value_type> >(sps), indent_, SC::SPACE);
       do_characters(string_adaptor::construct(sps));
     } // if ...
@@ -493,13 +492,21 @@ private:
     if(indent_ == -1)
       return;
 
-    if(out_again_)
+    if(out_again_ && !after_text())
       do_characters(SC::newline);
 
     indent_ -= 2;
     out_again_ = true;
   } // outdent
 
+  // whitespace can go between elements, but shouldn't change any text
+  bool after_text()
+  {
+    DOM::Node<string_type, string_adaptor> lc = current().getLastChild();
+    return (lc != 0) && 
+           (lc.getNodeType() == DOM::Node_base::TEXT_NODE || lc.getNodeType() == DOM::Node_base::CDATA_SECTION_NODE);
+  } // after_text
+
   DOM::Document<string_type, string_adaptor> document_;
   DOM::DocumentFragment<string_type, string_adaptor> documentFrag_;
   DOM::Node<string_type, string_adaptor> current_;
-- 
2.43.0


From e8b9126b74ffb401fd1f05421214faf3c92130e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 061/106] fix: xsl:output elements are merged by import
 precedence

Only the last one seen counted.
---
 .../XSLT/impl/handler/xslt_output_handler.hpp   |  6 +++++-
 include/XSLT/impl/xslt_compiled_stylesheet.hpp  | 17 +++++++++++++++--
 include/XSLT/impl/xslt_precedence.hpp           |  6 +++---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_output_handler.hpp b/include/XSLT/impl/handler/xslt_output_handler.hpp
index b78d3ba..7ca3625 100644
--- a/include/XSLT/impl/handler/xslt_output_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_output_handler.hpp
@@ -38,6 +38,9 @@ public:
 
       settings_ = rules.gather(qName, atts);
       cdataElements_ = extractCDATAElements(settings_[SC::cdata_section_elements]);
+      for(int a = 0; a != atts.getLength(); ++a)
+        if(string_adaptor::empty(atts.getURI(a)))
+          specified_[atts.getQName(a)] = settings_[atts.getQName(a)];
 
       return;
     } // if(settings_ == 0)
@@ -49,7 +52,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.stylesheet().output_settings(settings_, cdataElements_);
+    context_.stylesheet().output_settings(specified_, cdataElements_, context_.precedence());
     context_.pop();
   } // endElement
 
@@ -86,6 +89,7 @@ private:
 
   CompilationContext<string_type, string_adaptor>& context_;
   Settings settings_;
+  Settings specified_;
   CDATAElements cdataElements_;
 }; // class OutputHandler
 
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 650ed43..bfa3175 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -185,10 +185,23 @@ public:
     keys_.add(name, key);
   } // add_key
 
+  // merges an xsl:output - for each setting, the value with the highest import precedence is used
   void output_settings(const typename Output<string_type, string_adaptor>::Settings& settings, 
-                       const typename Output<string_type, string_adaptor>::CDATAElements& cdata_elements)
+                       const typename Output<string_type, string_adaptor>::CDATAElements& cdata_elements,
+                       const Precedence& precedence)
   {
-    output_settings_ = settings;
+    typedef typename Output<string_type, string_adaptor>::Settings Settings;
+    for(typename Settings::const_iterator s = settings.begin(), se = settings.end(); s != se; ++s)
+    {
+      typename SettingsPrecedence::iterator p = output_precedence_.find(s->first);
+      if((p != output_precedence_.end()) && (p->second > precedence))
+        continue;
+      output_settings_[s->first] = s->second;
+      if(p == output_precedence_.end())
+        output_precedence_.insert(std::make_pair(s->first, precedence));
+      else
+        p->second = precedence;
+    } // for ...
     output_cdata_elements_.insert(cdata_elements.begin(), cdata_elements.end());
   } // output_settingsp
 
diff --git a/include/XSLT/impl/xslt_precedence.hpp b/include/XSLT/impl/xslt_precedence.hpp
index e6d905c..a40411e 100644
--- a/include/XSLT/impl/xslt_precedence.hpp
+++ b/include/XSLT/impl/xslt_precedence.hpp
@@ -88,7 +88,7 @@ private:
   friend std::ostream& operator<<(std::ostream& os, const Precedence& prec);
 }; // class Precedence
 
-bool operator<(const Precedence& lhs, const Precedence& rhs)
+inline bool operator<(const Precedence& lhs, const Precedence& rhs)
 {
   if(lhs.precedence_ == rhs.precedence_)
     return false;
@@ -107,12 +107,12 @@ bool operator<(const Precedence& lhs, const Precedence& rhs)
   return true;
 } // operator>
 
-bool operator>(const Precedence& lhs, const Precedence& rhs)
+inline bool operator>(const Precedence& lhs, const Precedence& rhs)
 {
   return !(lhs == rhs) && !(lhs < rhs);
 } // operator>
 
-std::ostream& operator<<(std::ostream& os, const Precedence& prec)
+inline std::ostream& operator<<(std::ostream& os, const Precedence& prec)
 {
   os << '(' << prec.precedence_[0];
   for(size_t i = 1; i != prec.precedence_.size(); ++i)
-- 
2.43.0


From fb1aad19c30016720b0e4360a54a24426c0be6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 062/106] fix: default namespace declarations on literal result
 elements are not attributes

---
 include/XSLT/impl/handler/xslt_inline_element_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index 960795e..68aeed9 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -31,7 +31,7 @@ protected:
     std::vector<InlineAttribute<string_type, string_adaptor> > inlineAtts;
     for(int i = 0; i != atts.getLength(); ++i)
     {      
-      if(string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0)
+      if((string_adaptor::find(atts.getQName(i), SC::xmlns_colon) == 0) || (atts.getQName(i) == SC::xmlns))
         continue;
       if(atts.getURI(i) == StylesheetConstant<string_type, string_adaptor>::NamespaceURI)
         continue;
-- 
2.43.0


From 75349852793d5fd06cdcf79ea445424afe9c9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 063/106] fix: release top level variables when the
 transformation ends

They all refer to each other, so were never freed along with the documents they hold.
---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    |  1 +
 include/XSLT/impl/xslt_execution_context.hpp  | 24 +++++++++++++++++++
 include/XSLT/impl/xslt_variable_stack.hpp     |  8 +++++++
 3 files changed, 33 insertions(+)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index bfa3175..39eac9c 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -132,6 +132,7 @@ public:
       (*pi)->declare(context);
     for(VariableDeclListIterator ci = topLevelVars_.begin(), ce = topLevelVars_.end(); ci != ce; ++ci)
       (*ci)->execute(initialNode, context);
+    TopLevelFrame<string_type, string_adaptor> frame(context);
     context.freezeTopLevel();
 
     // go!
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index be45ad8..fa01e70 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -92,6 +92,7 @@ public:
   void declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param); 
   void declareVariable(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& variable); 
   void freezeTopLevel();
+  void releaseTopLevel();
   void injectGlobalScope(const typename ScopeType<string_type, string_adaptor>::Scope& scope);
 
   void setPosition(const DOM::Node<string_type, string_adaptor>& current, size_t pos) { setPosition(current, static_cast<int>(pos)); }
@@ -217,6 +218,12 @@ void ExecutionContext<string_type, string_adaptor>::declareVariable(const DOM::N
   stack_.declareVariable(VariableClosure<string_type, string_adaptor>::create(variable, node, *this)); 
 } // declareVariable
 
+template<class string_type, class string_adaptor>
+void ExecutionContext<string_type, string_adaptor>::releaseTopLevel()
+{
+  stack_.releaseTopLevel();
+} // releaseTopLevel
+
 template<class string_type, class string_adaptor>
 void ExecutionContext<string_type, string_adaptor>::freezeTopLevel()
 {
@@ -229,6 +236,23 @@ void ExecutionContext<string_type, string_adaptor>::injectGlobalScope(const type
   stack_.injectGlobalScope(scope);
 } // injectGlobalScope
 
+///////////////////////////
+// top level variables are good until the end of the transformation
+template<class string_type, class string_adaptor>
+class TopLevelFrame
+{
+public:
+  TopLevelFrame(ExecutionContext<string_type, string_adaptor>& context) : context_(context) { }
+  ~TopLevelFrame() { context_.releaseTopLevel(); }
+
+private:
+  ExecutionContext<string_type, string_adaptor>& context_;
+
+  TopLevelFrame(const TopLevelFrame&);
+  TopLevelFrame& operator=(const TopLevelFrame&);
+  bool operator==(const TopLevelFrame&) const;
+}; // class TopLevelFrame
+
 ///////////////////////////
 template<class string_type, class string_adaptor>
 class StackFrame
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index 3b39a89..03f0c39 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -156,6 +156,14 @@ public:
       lookup(top, v->first);
   } // freezeTopLevel
   
+  // top level variables all refer to each other, so won't ever go away unless they're told to forget each other
+  void releaseTopLevel()
+  {
+    const Scope top = stack_.front();
+    for(typename Scope::const_iterator v = top.begin(), ve = top.end(); v != ve; ++v)
+      v->second->injectGlobalScope(Scope());
+  } // releaseTopLevel
+
   void injectGlobalScope(const Scope& scope)
   {
     stack_.front() = scope;
-- 
2.43.0


From 066c4b6741b4074b2ccf9cab26c4dc5300878b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:03 +0000
Subject: [PATCH 064/106] fix: a stylesheet that does not compile does not leak

Element handlers did not delete what they were building if an exception meant they were deleted before their element ended.
---
 .../impl/handler/xslt_apply_imports_handler.hpp | 13 +++++++------
 .../handler/xslt_apply_templates_handler.hpp    | 13 +++++++------
 .../impl/handler/xslt_call_template_handler.hpp | 13 +++++++------
 .../XSLT/impl/handler/xslt_choose_handler.hpp   | 17 +++++++++--------
 include/XSLT/impl/handler/xslt_copy_handler.hpp | 13 +++++++------
 .../handler/xslt_inline_element_handler.hpp     |  4 ++--
 .../handler/xslt_item_container_handler.hpp     | 17 ++++++++++-------
 include/XSLT/impl/handler/xslt_key_handler.hpp  | 11 ++++++-----
 include/XSLT/impl/handler/xslt_sort_handler.hpp | 15 ++++++++-------
 .../XSLT/impl/handler/xslt_template_handler.hpp |  2 +-
 include/XSLT/impl/handler/xslt_text_handler.hpp | 13 +++++++------
 .../XSLT/impl/handler/xslt_value_of_handler.hpp | 15 ++++++++-------
 .../XSLT/impl/handler/xslt_variable_handler.hpp |  2 +-
 .../impl/handler/xslt_with_param_handler.hpp    |  2 +-
 14 files changed, 81 insertions(+), 69 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp b/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
index 3aca8f9..c30a719 100644
--- a/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_imports_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_APPLY_IMPORTS_HANDLER_HPP
 
 #include "../xslt_apply_imports.hpp"
+#include <memory>
 
 namespace Arabica
 {
@@ -17,7 +18,7 @@ public:
 
   ApplyImportsHandler(CompilationContext<string_type, string_adaptor>& context):
     context_(context),
-    applyImports_(0)
+    applyImports_()
   {
   } // ApplyImportsHandler
 
@@ -30,13 +31,13 @@ public:
 			    const string_type& /* qName */,
 			    const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(applyImports_ == 0)
+    if(!applyImports_)
     {
       if(atts.getLength() != 0)
 	      throw SAX::SAXException("xsl:apply-imports element does not have any attributes");
-      applyImports_ = new ApplyImports<string_type, string_adaptor>();
+      applyImports_.reset(new ApplyImports<string_type, string_adaptor>());
       return;
-    } // if(applyImports_ == 0)
+    } // if(!applyImports_)
 
     throw SAX::SAXException("xsl:apply-imports element must be empty");
   } // startElement
@@ -45,7 +46,7 @@ public:
 			  const string_type& /* localName */,
 			  const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(applyImports_);
+    context_.parentContainer().add_item(applyImports_.release());
     context_.pop();
   } // endElement
 
@@ -56,7 +57,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  ApplyImports<string_type, string_adaptor>* applyImports_;
+  std::unique_ptr<ApplyImports<string_type, string_adaptor> > applyImports_;
 }; // class ApplyImportsHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
index af3281e..e631a8f 100644
--- a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_APPLY_TEMPLATES_HANDLER_HPP
 
 #include "../xslt_apply_templates.hpp"
+#include <memory>
 #include "xslt_sort_handler.hpp"
 #include "xslt_with_param_handler.hpp"
 
@@ -22,7 +23,7 @@ public:
 
   ApplyTemplatesHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    applyTemplates_(0)
+    applyTemplates_()
   {
   } // ApplyTemplatesHandler
 
@@ -31,7 +32,7 @@ public:
                             const string_type& qName,
                             const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(applyTemplates_ == 0)
+    if(!applyTemplates_)
     {
       static const AV rules = AV::rule(SC::select, false)
                                  .rule(SC::mode, false);
@@ -46,10 +47,10 @@ public:
       string_type mode;
       if(attrs[SC::mode] != string_adaptor::empty_string())
         mode = context_.processInternalQName(attrs[SC::mode]).clarkName();
-      applyTemplates_ = new ApplyTemplates<string_type, string_adaptor>(xpath, mode);
+      applyTemplates_.reset(new ApplyTemplates<string_type, string_adaptor>(xpath, mode));
 
       return;
-    } // if(applyTemplates_ == 0)
+    } // if(!applyTemplates_)
 
     if(namespaceURI == StylesheetConstant<string_type, string_adaptor>::NamespaceURI)
     {
@@ -84,7 +85,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(applyTemplates_);
+    context_.parentContainer().add_item(applyTemplates_.release());
     context_.pop();
   } // endElement
 
@@ -95,7 +96,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  ApplyTemplates<string_type, string_adaptor>* applyTemplates_;
+  std::unique_ptr<ApplyTemplates<string_type, string_adaptor> > applyTemplates_;
 }; // class ApplyTemplatesHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_call_template_handler.hpp b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
index 0d817f2..87fefd4 100644
--- a/include/XSLT/impl/handler/xslt_call_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_CALL_TEMPLATE_HANDLER_HPP
 
 #include "../xslt_call_template.hpp"
+#include <memory>
 #include "xslt_with_param_handler.hpp"
 
 namespace Arabica
@@ -20,7 +21,7 @@ public:
 
   CallTemplateHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    callTemplate_(0)
+    callTemplate_()
   {
   } // CallTemplateHandler
 
@@ -29,7 +30,7 @@ public:
                             const string_type& qName,
                             const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(callTemplate_ == 0)
+    if(!callTemplate_)
     {
       static const AV rules = AV::rule(SC::name, true);
 
@@ -37,9 +38,9 @@ public:
 
       string_type name = context_.processInternalQName(attrs[SC::name]).clarkName();
 
-      callTemplate_ = new CallTemplate<string_type, string_adaptor>(name);
+      callTemplate_.reset(new CallTemplate<string_type, string_adaptor>(name));
       return;
-    } // if(callTemplate_ == 0)
+    } // if(!callTemplate_)
 
     if((namespaceURI == StylesheetConstant<string_type, string_adaptor>::NamespaceURI) && (localName == SC::with_param))
     {
@@ -59,7 +60,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(callTemplate_);
+    context_.parentContainer().add_item(callTemplate_.release());
     context_.pop();
   } // endElement
 
@@ -69,7 +70,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  CallTemplate<string_type, string_adaptor>* callTemplate_;
+  std::unique_ptr<CallTemplate<string_type, string_adaptor> > callTemplate_;
 }; // class CallTemplateHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_choose_handler.hpp b/include/XSLT/impl/handler/xslt_choose_handler.hpp
index 928700e..399f7ae 100644
--- a/include/XSLT/impl/handler/xslt_choose_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_choose_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_CHOOSE_HANDLER_HPP
 
 #include "../xslt_choose.hpp"
+#include <memory>
 
 namespace Arabica
 {
@@ -42,7 +43,7 @@ public:
 			  const string_type& /* localName */, 
 			  const string_type& /* qName */)
   {
-    choose_->add_when(baseT::container());
+    choose_->add_when(baseT::release());
     baseT::context().pop();
   } // endElement
 
@@ -79,7 +80,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    choose_->set_otherwise(baseT::container());
+    choose_->set_otherwise(baseT::release());
     baseT::context().pop();
   } // endElement
 
@@ -94,7 +95,7 @@ class ChooseHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   ChooseHandler(CompilationContext<string_type, string_adaptor>& context) :
       context_(context),
-      choose_(0),
+      choose_(),
       seenWhere_(false),
       seenOtherwise_(false)
   {
@@ -110,7 +111,7 @@ public:
       if(atts.getLength() != 0)
         throw SAX::SAXException("xsl:choose can not have attributes");
 
-      choose_ = new Choose<string_type, string_adaptor>();
+      choose_.reset(new Choose<string_type, string_adaptor>());
       return;
     } // if ...
 
@@ -123,7 +124,7 @@ public:
           throw SAX::SAXException("xsl:otherwise must be the last element in an xsl:choose");
 
         context_.push(0,
-                      new WhenHandler<string_type, string_adaptor>(choose_, context_), 
+                      new WhenHandler<string_type, string_adaptor>(choose_.get(), context_), 
                       namespaceURI,
                       localName,
                       qName, 
@@ -137,7 +138,7 @@ public:
           throw SAX::SAXException("xsl:choose may only have one xsl:otherwise element");
         seenOtherwise_ = true;
         context_.push(0,
-                      new OtherwiseHandler<string_type, string_adaptor>(choose_, context_), 
+                      new OtherwiseHandler<string_type, string_adaptor>(choose_.get(), context_), 
                       namespaceURI,
                       localName,
                       qName, 
@@ -154,7 +155,7 @@ public:
   {
     if(!seenWhere_)
       throw SAX::SAXException("xsl:choose must contain at least one xsl:where element");
-    context_.parentContainer().add_item(choose_);
+    context_.parentContainer().add_item(choose_.release());
     context_.pop();
   } // endElement
 
@@ -165,7 +166,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  Choose<string_type, string_adaptor>* choose_;
+  std::unique_ptr<Choose<string_type, string_adaptor> > choose_;
   bool seenWhere_;
   bool seenOtherwise_;
 }; // class ChooseHandler
diff --git a/include/XSLT/impl/handler/xslt_copy_handler.hpp b/include/XSLT/impl/handler/xslt_copy_handler.hpp
index a4ebf50..10d3072 100644
--- a/include/XSLT/impl/handler/xslt_copy_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_copy_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_COPY_HANDLER_HPP
 
 #include "../xslt_copy.hpp"
+#include <memory>
 
 namespace Arabica
 {
@@ -39,7 +40,7 @@ class CopyOfHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   CopyOfHandler(CompilationContext<string_type, string_adaptor>& context) : 
     context_(context),
-    copyOf_(0)
+    copyOf_()
   {
   } // CopyOfHandler
 
@@ -48,15 +49,15 @@ public:
                             const string_type& qName,
                             const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(copyOf_ == 0)
+    if(!copyOf_)
     {
       static const AV rules = AV::rule(SC::select, true);
       string_type select = rules.gather(qName, atts)[SC::select];
 
-      copyOf_ = new CopyOf<string_type, string_adaptor>(context_.xpath_expression(select));
+      copyOf_.reset(new CopyOf<string_type, string_adaptor>(context_.xpath_expression(select)));
 
       return;
-    } // if(copyOf_ == 0)
+    } // if(!copyOf_)
 
     throw SAX::SAXException(string_adaptor::asStdString(qName) + " can not contain elements");
   } // startElement
@@ -65,7 +66,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(copyOf_);
+    context_.parentContainer().add_item(copyOf_.release());
     context_.pop();
   } // endElement
 
@@ -76,7 +77,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  CopyOf<string_type, string_adaptor>* copyOf_;
+  std::unique_ptr<CopyOf<string_type, string_adaptor> > copyOf_;
 }; // class CopyOfHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
index 68aeed9..9c74acb 100644
--- a/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_inline_element_handler.hpp
@@ -86,12 +86,12 @@ public:
                           const string_type& localName,
                           const string_type& qName)
   {
-    baseT::context().stylesheet().add_template(lreStylesheet_);
+    baseT::context().stylesheet().add_template(lreStylesheet_.release());
     baseT::endElement(namespaceURI, localName, qName);
   } // endElement
 
 private:
-  Template<string_type, string_adaptor>* lreStylesheet_;
+  std::unique_ptr<Template<string_type, string_adaptor> > lreStylesheet_;
 }; // class LREStylesheetHandler
 
 
diff --git a/include/XSLT/impl/handler/xslt_item_container_handler.hpp b/include/XSLT/impl/handler/xslt_item_container_handler.hpp
index daccc18..102df0f 100644
--- a/include/XSLT/impl/handler/xslt_item_container_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_item_container_handler.hpp
@@ -3,6 +3,7 @@
 
 #include "xslt_create_handler.hpp"
 #include "../xslt_text.hpp"
+#include <memory>
 
 namespace Arabica
 {
@@ -25,7 +26,7 @@ public:
 protected:
   ItemContainerHandler(CompilationContext<string_type, string_adaptor>& context) :
          context_(context),
-         container_(0)
+         container_()
   {
   } // ItemContainerHandler
 
@@ -41,7 +42,9 @@ protected:
                                          const SAX::Attributes<string_type, string_adaptor>& atts) = 0;
 
   CompilationContext<string_type, string_adaptor>& context() const { return context_; }
-  container_type* container() const { return container_; }
+  container_type* container() const { return container_.get(); }
+  // hands the container over to whoever is going to look after it from now on
+  container_type* release() { return container_.release(); }
 
 public:
   virtual void startElement(const string_type& namespaceURI,
@@ -51,7 +54,7 @@ public:
   {
     if(container_ == 0)
     {
-      container_ = createContainer(namespaceURI, localName, qName, atts);
+      container_.reset(createContainer(namespaceURI, localName, qName, atts));
       return;
     } // if(item_ == 0)
 
@@ -65,7 +68,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(container_);
+    context_.parentContainer().add_item(release());
     context_.pop();
   } // endElement
 
@@ -91,13 +94,13 @@ protected:
 
       if(child != 0)
       {
-        context_.push(container_, child, namespaceURI, localName, qName, atts);
+        context_.push(container(), child, namespaceURI, localName, qName, atts);
         return true;
       }
       return false;
     } // if(namespaceURI ...
 
-    context_.push(container_,
+    context_.push(container(),
                   createInlineElementHandler(context_),
                   namespaceURI, 
                   localName, 
@@ -108,7 +111,7 @@ protected:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  container_type* container_;
+  std::unique_ptr<container_type> container_;
 }; // class ItemContainerHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_key_handler.hpp b/include/XSLT/impl/handler/xslt_key_handler.hpp
index 7287974..f709619 100644
--- a/include/XSLT/impl/handler/xslt_key_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_key_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_KEY_HANDLER_HPP
 
 #include "../xslt_key.hpp"
+#include <memory>
 #include <XML/XMLCharacterClasses.hpp>
 
 namespace Arabica
@@ -18,7 +19,7 @@ class KeyHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   KeyHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    key_(0)
+    key_()
   {
   } // KeyHandler
 
@@ -27,7 +28,7 @@ public:
 			    const string_type& qName,
 			    const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(key_ != 0)
+    if(key_)
       throw SAX::SAXException(string_adaptor::asStdString(qName) + " can not contain elements");
 
     static const AV rules = AV::rule(SC::name, true)
@@ -41,7 +42,7 @@ public:
       MatchExprList matches = context_.xpath_match_no_variables(attrs[SC::match]);
       Arabica::XPath::XPathExpression<string_type, string_adaptor> use = context_.xpath_expression_no_variables(attrs[SC::use]);
 
-      key_ = new Key<string_type, string_adaptor>(matches, use);
+      key_.reset(new Key<string_type, string_adaptor>(matches, use));
     } // try
     catch(const Arabica::XPath::UnboundVariableException&)
     {
@@ -53,7 +54,7 @@ public:
 		                      const string_type& /* localName */,
 		                      const string_type& /* qName */)
   {
-    context_.stylesheet().add_key(name_, key_);
+    context_.stylesheet().add_key(name_, key_.release());
     context_.pop();
   } // endElement
 
@@ -65,7 +66,7 @@ public:
 private:
   CompilationContext<string_type, string_adaptor>& context_;
   string_type name_;
-  Key<string_type, string_adaptor>* key_;
+  std::unique_ptr<Key<string_type, string_adaptor> > key_;
 }; // class KeyHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_sort_handler.hpp b/include/XSLT/impl/handler/xslt_sort_handler.hpp
index 035ed90..cac929c 100644
--- a/include/XSLT/impl/handler/xslt_sort_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_sort_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_SORT_HANDLER_HPP
 
 #include "../xslt_sort.hpp"
+#include <memory>
 
 namespace Arabica
 {
@@ -18,7 +19,7 @@ public:
               Sortable<string_type, string_adaptor>& sortee) : 
     context_(context),
     sortee_(sortee),
-    sort_(0)
+    sort_()
   {
   } // SortHandler
 
@@ -27,7 +28,7 @@ public:
                             const string_type& qName,
                             const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(sort_ == 0)
+    if(!sort_)
     {
       static const AV rules = AV::rule(SC::select, false, SC::current_xpath)
                                  .rule(SC::lang, false)
@@ -46,13 +47,13 @@ public:
       if(string_adaptor::length(attr[SC::lang]) != 0)
 	      std::cerr << "Sorry!  Don't support xsl:sort lang attribute yet" << std::endl;
  
-      sort_ = new Sort<string_type, string_adaptor>(select,
+      sort_.reset(new Sort<string_type, string_adaptor>(select,
                        lang, 
                        datatype, 
                        order,
-                       caseorder);
+                       caseorder));
       return;
-    } // if(sort_ == 0)
+    } // if(!sort_)
 
     throw SAX::SAXException("xsl:sort can not contain elements");
   } // startElement
@@ -61,7 +62,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    sortee_.add_sort(sort_);
+    sortee_.add_sort(sort_.release());
     context_.pop();
   } // endElement
 
@@ -73,7 +74,7 @@ public:
 private:
   CompilationContext<string_type, string_adaptor>& context_;
   Sortable<string_type, string_adaptor>& sortee_;
-  Sort<string_type, string_adaptor>* sort_;
+  std::unique_ptr<Sort<string_type, string_adaptor> > sort_;
 }; // SortHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_template_handler.hpp b/include/XSLT/impl/handler/xslt_template_handler.hpp
index c66852c..18e99bd 100644
--- a/include/XSLT/impl/handler/xslt_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_template_handler.hpp
@@ -119,7 +119,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    baseT::context().stylesheet().add_template(baseT::container());
+    baseT::context().stylesheet().add_template(baseT::release());
     baseT::context().pop();
   } // endElement
 
diff --git a/include/XSLT/impl/handler/xslt_text_handler.hpp b/include/XSLT/impl/handler/xslt_text_handler.hpp
index ff98bcd..8c58e61 100644
--- a/include/XSLT/impl/handler/xslt_text_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_text_handler.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_XSLT_TEXT_HANDLER_HPP
 
 #include "../xslt_text.hpp"
+#include <memory>
 
 namespace Arabica
 {
@@ -16,7 +17,7 @@ class TextHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   TextHandler(CompilationContext<string_type, string_adaptor>& context) :
     context_(context),
-    text_(0)
+    text_()
   {
   } // TextHandler
 
@@ -25,12 +26,12 @@ public:
                             const string_type& qName,
                             const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(text_ == 0)
+    if(!text_)
     {
       static const AV rules = AV::rule(SC::disable_output_escaping, false, SC::no, AllowedValues<string_type>(SC::yes, SC::no));
-      text_ = new Text<string_type, string_adaptor>(rules.gather(qName, atts)[SC::disable_output_escaping] == SC::yes);
+      text_.reset(new Text<string_type, string_adaptor>(rules.gather(qName, atts)[SC::disable_output_escaping] == SC::yes));
       return;
-    } // if(text_ == 0)
+    } // if(!text_)
 
     throw SAX::SAXException(string_adaptor::asStdString(qName) + " can not contain elements");
   } // startElement
@@ -40,7 +41,7 @@ public:
                           const string_type& /* qName */)
   {
     text_->set(buffer_);
-    context_.parentContainer().add_item(text_);
+    context_.parentContainer().add_item(text_.release());
     context_.pop();
   } // endElement
 
@@ -51,7 +52,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  Text<string_type, string_adaptor>* text_;
+  std::unique_ptr<Text<string_type, string_adaptor> > text_;
   string_type buffer_;
 }; // class TextHandler
 
diff --git a/include/XSLT/impl/handler/xslt_value_of_handler.hpp b/include/XSLT/impl/handler/xslt_value_of_handler.hpp
index 4f974a6..e12f0dc 100644
--- a/include/XSLT/impl/handler/xslt_value_of_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_value_of_handler.hpp
@@ -3,6 +3,7 @@
 
 #include <XML/XMLCharacterClasses.hpp>
 #include "../xslt_value_of.hpp"
+#include <memory>
 
 namespace Arabica
 {
@@ -17,7 +18,7 @@ class ValueOfHandler : public SAX::DefaultHandler<string_type, string_adaptor>
 public:
   ValueOfHandler(CompilationContext<string_type, string_adaptor>& context) : 
     context_(context),
-    valueOf_(0)
+    valueOf_()
   {
   } // ValueOfHandler
 
@@ -26,16 +27,16 @@ public:
                             const string_type& qName,
                             const SAX::Attributes<string_type, string_adaptor>& atts)
   {
-    if(valueOf_ == 0)
+    if(!valueOf_)
     {
       static const AV rules = AV::rule(SC::select, true)
                                  .rule(SC::disable_output_escaping, false, SC::no, AllowedValues<string_type>(SC::yes, SC::no));
 
       std::map<string_type, string_type> attrs = rules.gather(qName, atts);
-      valueOf_ = new ValueOf<string_type, string_adaptor>(context_.xpath_expression(attrs[SC::select]), 
-			                                               attrs[SC::disable_output_escaping] == SC::yes);
+      valueOf_.reset(new ValueOf<string_type, string_adaptor>(context_.xpath_expression(attrs[SC::select]), 
+			                                               attrs[SC::disable_output_escaping] == SC::yes));
       return;
-    } // if(valueOf_ == 0)
+    } // if(!valueOf_)
 
     throw SAX::SAXException(string_adaptor::asStdString(qName) + " can not contain elements");
   } // startElement
@@ -44,7 +45,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    context_.parentContainer().add_item(valueOf_);
+    context_.parentContainer().add_item(valueOf_.release());
     context_.pop();
   } // endElement
 
@@ -55,7 +56,7 @@ public:
 
 private:
   CompilationContext<string_type, string_adaptor>& context_;
-  ValueOf<string_type, string_adaptor>* valueOf_;
+  std::unique_ptr<ValueOf<string_type, string_adaptor> > valueOf_;
 }; // class ValueOfHandler
 
 } //namespace XSLT
diff --git a/include/XSLT/impl/handler/xslt_variable_handler.hpp b/include/XSLT/impl/handler/xslt_variable_handler.hpp
index 5c3f7be..e19bfdc 100644
--- a/include/XSLT/impl/handler/xslt_variable_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_variable_handler.hpp
@@ -92,7 +92,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    baseT::context().stylesheet().add_variable(baseT::container());
+    baseT::context().stylesheet().add_variable(baseT::release());
     baseT::context().pop();
   } // endElement
 
diff --git a/include/XSLT/impl/handler/xslt_with_param_handler.hpp b/include/XSLT/impl/handler/xslt_with_param_handler.hpp
index f23d912..6a3d6ad 100644
--- a/include/XSLT/impl/handler/xslt_with_param_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_with_param_handler.hpp
@@ -25,7 +25,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
-    paramee_.add_with_param(baseT::container());
+    paramee_.add_with_param(baseT::release());
     baseT::context().pop();
   } // endElement
 
-- 
2.43.0


From 101dc5fe857e12778340ab83561717584b7ad49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 065/106] fix: xsl:sort after text in xsl:for-each is an error

---
 include/XSLT/impl/handler/xslt_for_each_handler.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/XSLT/impl/handler/xslt_for_each_handler.hpp b/include/XSLT/impl/handler/xslt_for_each_handler.hpp
index 45ed637..9a3480a 100644
--- a/include/XSLT/impl/handler/xslt_for_each_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_for_each_handler.hpp
@@ -24,6 +24,15 @@ public:
   {
   } // ForEachHandler
 
+  virtual void characters(const string_type& ch)
+  {
+    for(typename string_adaptor::const_iterator i = string_adaptor::begin(ch), e = string_adaptor::end(ch); i != e; ++i)
+      if(!Arabica::XML::is_space(*i))
+        done_sort_ = true;
+
+    baseT::characters(ch);
+  } // characters
+
 protected:
   virtual ForEach<string_type, string_adaptor>* createContainer(const string_type& /* namespaceURI */,
                                    const string_type& /* localName */,
-- 
2.43.0


From 0890960f69fbc2f719dfc4e9a6607066aa132a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 066/106] fix: xsl:call-template can not contain text

---
 include/XSLT/impl/handler/xslt_call_template_handler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/handler/xslt_call_template_handler.hpp b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
index 87fefd4..cc52efd 100644
--- a/include/XSLT/impl/handler/xslt_call_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_call_template_handler.hpp
@@ -64,8 +64,9 @@ public:
     context_.pop();
   } // endElement
 
-  virtual void characters(const string_type& /* ch */)
+  virtual void characters(const string_type& ch)
   {
+    verifyNoCharacterData<string_type, string_adaptor>(ch, SC::call_template);
   } // characters
 
 private:
-- 
2.43.0


From bd681f37e80f6bdd5790d0d25865ed3d4d05623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 067/106] fix: variables with a select attribute can not have
 element content

---
 include/XSLT/impl/handler/xslt_variable_handler.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/XSLT/impl/handler/xslt_variable_handler.hpp b/include/XSLT/impl/handler/xslt_variable_handler.hpp
index e19bfdc..ae46439 100644
--- a/include/XSLT/impl/handler/xslt_variable_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_variable_handler.hpp
@@ -59,6 +59,16 @@ protected:
     return new VType(name, xpath, precedence_);
   } // createContainer
 
+  virtual bool createChild(const string_type& namespaceURI,
+                           const string_type& localName,
+                           const string_type& qName,
+                           const SAX::Attributes<string_type, string_adaptor>& atts)
+  {
+    if(has_select_)
+      throw SAX::SAXException("A variable or param can not have both a select attribute and content");
+    return baseT::createChild(namespaceURI, localName, qName, atts);
+  } // createChild
+
   virtual void characters(const string_type& ch)
   {
     if(has_select_)
-- 
2.43.0


From 1956599ea49515476cc313e2ef9f6a5e4f70d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:14 +0000
Subject: [PATCH 068/106] fix: xsl:import must come first, and xsl:import and
 xsl:include only at the top level

---
 .../XSLT/impl/handler/xslt_include_handler.hpp   | 16 ++++++++++++++--
 include/XSLT/impl/xslt_compilation_context.hpp   |  6 ++++++
 include/XSLT/impl/xslt_stylesheet_compiler.hpp   |  4 ++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_include_handler.hpp b/include/XSLT/impl/handler/xslt_include_handler.hpp
index 02f5a04..6a3a57a 100644
--- a/include/XSLT/impl/handler/xslt_include_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_include_handler.hpp
@@ -21,7 +21,8 @@ public:
   IncludeHandler() :
     context_(0),
     compiler_(0),
-    no_content_(false)
+    no_content_(false),
+    position_(before_root)
   {
   } // IncludeHandler
 
@@ -32,6 +33,11 @@ public:
     compiler_ = compiler;
   } // context
 
+  // where we are in the stylesheet module being read
+  void start_module() { position_ = before_root; }
+  void start_imports() { position_ = imports; }
+  void start_declarations() { position_ = declarations; }
+
   void start_include(const string_type& namespaceURI,
                      const string_type& localName,
                      const string_type& qName,
@@ -54,10 +60,13 @@ public:
     if(no_content_)
       throw SAX::SAXException("xsl:include must be empty");
 
-    if(namespaceURI == StylesheetConstant<string_type, string_adaptor>::NamespaceURI)
+    if((namespaceURI == StylesheetConstant<string_type, string_adaptor>::NamespaceURI) &&
+       (position_ != before_root) && context_->atTopLevel())
     {
       if(localName == SC::import)
       {
+        if(position_ != imports)
+          throw SAX::SAXException("xsl:import must come before all other children of xsl:stylesheet");
         string_type href = validate_href(qName, atts);
         import_stack_.push_back(href, context_->next_precedence(), current_includes_);
         return;
@@ -93,6 +102,7 @@ public:
       {
         include_stylesheet(href_.back(), context_->precedence());
         href_.pop_back();
+        start_declarations();
       } // if ...
       if(href_.empty())
         context_->parser().setContentHandler(*compiler_);
@@ -234,6 +244,8 @@ private:
   HrefStack current_includes_;
 
   HrefStack href_;
+
+  enum { before_root, imports, declarations } position_;
 }; // class IncludeHandler
 
 } // namespace XSLT
diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 4bbde83..d1d337d 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -144,6 +144,12 @@ public:
     return *parentStack_.top();
   } // parentContainer
 
+  // true when nothing but the root handler is at work
+  bool atTopLevel() const
+  {
+    return handlerStack_.size() == 1;
+  } // atTopLevel
+
   ContentHandlerT& parentHandler() const
   {
     parser_.setContentHandler(*handlerStack_.top());
diff --git a/include/XSLT/impl/xslt_stylesheet_compiler.hpp b/include/XSLT/impl/xslt_stylesheet_compiler.hpp
index 9077f04..799790d 100644
--- a/include/XSLT/impl/xslt_stylesheet_compiler.hpp
+++ b/include/XSLT/impl/xslt_stylesheet_compiler.hpp
@@ -44,6 +44,7 @@ public:
   virtual void startDocument()
   {
     top_ = true;
+    includer_.start_module();
   } // startDocument
 
   virtual void startElement(const string_type& namespaceURI,
@@ -54,6 +55,7 @@ public:
     if(top_)
     {
       top_ = false;
+      includer_.start_imports();
       if(namespaceURI == SC::NamespaceURI)
         startStylesheet(namespaceURI, localName, qName, atts);
       else
@@ -151,6 +153,7 @@ private:
       return;
     } // if ...
     
+    includer_.start_declarations();
     SAX::DefaultHandler<string_type, string_adaptor>* child = allowedChildren().create(localName, context_);
 
     if(child != 0)
@@ -164,6 +167,7 @@ private:
                            const string_type& qName,
                            const AttributesT& atts)
   {
+    includer_.start_declarations();
     context_.push(0,
                   new ForeignElementHandler<string_type, string_adaptor>(context_),
                   namespaceURI,
-- 
2.43.0


From 0f61efdab7dcc536041bcfa64699f3a825f0903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:50 +0000
Subject: [PATCH 069/106] fix: xsl:template priority must be a number

---
 include/XSLT/impl/handler/xslt_template_handler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/XSLT/impl/handler/xslt_template_handler.hpp b/include/XSLT/impl/handler/xslt_template_handler.hpp
index 18e99bd..fe763ad 100644
--- a/include/XSLT/impl/handler/xslt_template_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_template_handler.hpp
@@ -66,6 +66,9 @@ protected:
     const string_type& priority = attributes[SC::priority];
     if((atts.getIndex(SC::priority) != -1) && (priority == string_adaptor::empty_string()))
       throw SAX::SAXException("xsl:template priority cannot be empty");
+    if(!string_adaptor::empty(priority) && 
+       Arabica::XPath::isNaN(Arabica::XPath::impl::stringAsNumber<string_type, string_adaptor>(priority)))
+      throw SAX::SAXException("xsl:template priority must be a number");
 
     string_type name;
     if(attributes[SC::name] != string_adaptor::empty_string())
-- 
2.43.0


From 745a0ca768a64cf31f6bfbddd23e13df99e22ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:50 +0000
Subject: [PATCH 070/106] fix: two top level variables of the same name and
 import precedence are an error

---
 include/XSLT/impl/handler/xslt_variable_handler.hpp | 1 +
 include/XSLT/impl/xslt_compiled_stylesheet.hpp      | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/XSLT/impl/handler/xslt_variable_handler.hpp b/include/XSLT/impl/handler/xslt_variable_handler.hpp
index ae46439..ce1f295 100644
--- a/include/XSLT/impl/handler/xslt_variable_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_variable_handler.hpp
@@ -102,6 +102,7 @@ public:
                           const string_type& /* localName */,
                           const string_type& /* qName */)
   {
+    baseT::context().stylesheet().declare_variable(baseT::container()->name(), baseT::container()->precedence());
     baseT::context().stylesheet().add_variable(baseT::release());
     baseT::context().pop();
   } // endElement
diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 39eac9c..4aa7e50 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -175,6 +175,14 @@ public:
     named_templates_[templat->name()] = templat;
   } // add_template
 
+  void declare_variable(const string_type& name, const Precedence& precedence)
+  {
+    if(!declared_vars_.insert(std::make_pair(name, precedence)).second)
+      throw SAX::SAXException("Top level variable or param named '" + 
+                              string_adaptor::asStdString(name) + 
+                              "' already defined");
+  } // declare_variable
+
   void add_variable(Item<string_type, string_adaptor>* item)
   {
     topLevelVars_.push_back(item);
@@ -411,6 +419,7 @@ private:
   NamedTemplates named_templates_;
   TemplateStack templates_;
   VariableDeclList topLevelVars_;
+  std::set<std::pair<string_type, Precedence> > declared_vars_;
   DeclaredKeys<string_type, string_adaptor> keys_;
   ParamList params_;
 
-- 
2.43.0


From d7b40ce72235937dab62d320b1f934c9b82f7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:50 +0000
Subject: [PATCH 071/106] fix: a stylesheet using an undeclared namespace
 prefix does not compile

---
 include/XSLT/impl/xslt_stylesheet_parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/XSLT/impl/xslt_stylesheet_parser.hpp b/include/XSLT/impl/xslt_stylesheet_parser.hpp
index 4307045..d82cce4 100644
--- a/include/XSLT/impl/xslt_stylesheet_parser.hpp
+++ b/include/XSLT/impl/xslt_stylesheet_parser.hpp
@@ -4,6 +4,7 @@
 #include <SAX/filter/NamespaceTracker.hpp>
 #include <SAX/filter/XMLBaseTracker.hpp>
 #include <SAX/filter/TextCoalescer.hpp>
+#include <SAX/helpers/CatchErrorHandler.hpp>
 
 
 namespace Arabica
@@ -42,7 +43,11 @@ public:
     xmlbase_tracker_.setParent(text_coalescer_);
     namespace_tracker_.setParent(xmlbase_tracker_);
 
+    SAX::CatchErrorHandler<string_type, string_adaptor> errorHandler;
+    namespace_tracker_.setErrorHandler(errorHandler);
     namespace_tracker_.parse(source);
+    if(errorHandler.errorsReported())
+      throw SAX::SAXException(errorHandler.errors());
   } // parse
 
   string_type namespaceURI(const string_type& prefix) const
-- 
2.43.0


From 0a2fbf8d28dd10dfed4cea5aa91795be146e70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:19 +0000
Subject: [PATCH 072/106] fix: an empty select or mode attribute is an error,
 not an absent one

---
 include/XSLT/impl/handler/xslt_apply_templates_handler.hpp | 4 ++--
 include/XSLT/impl/handler/xslt_variable_handler.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
index e631a8f..dee41b5 100644
--- a/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_apply_templates_handler.hpp
@@ -41,11 +41,11 @@ public:
     
       const string_type& select = attrs[SC::select];
       Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> xpath;
-      if(select != string_adaptor::empty_string())
+      if(atts.getIndex(SC::select) != -1)
         xpath = context_.xpath_expression(select);
 
       string_type mode;
-      if(attrs[SC::mode] != string_adaptor::empty_string())
+      if(atts.getIndex(SC::mode) != -1)
         mode = context_.processInternalQName(attrs[SC::mode]).clarkName();
       applyTemplates_.reset(new ApplyTemplates<string_type, string_adaptor>(xpath, mode));
 
diff --git a/include/XSLT/impl/handler/xslt_variable_handler.hpp b/include/XSLT/impl/handler/xslt_variable_handler.hpp
index ce1f295..ed39ff1 100644
--- a/include/XSLT/impl/handler/xslt_variable_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_variable_handler.hpp
@@ -49,7 +49,7 @@ protected:
 
     const string_type& select = atts.getValue(SC::select);
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> xpath;
-    if(select != string_adaptor::empty_string())
+    if(atts.getIndex(SC::select) != -1)
     {
       xpath = baseT::context().xpath_expression(select);
       has_select_ = true;
-- 
2.43.0


From 952f16ba299069170cefa1ae3e35315494ca6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 073/106] fix: characters given by reference in HTML are
 reported as UTF-8

---
 include/Taggle/impl/Parser.hpp           | 21 ++++++---------
 include/Taggle/impl/Scanner.hpp          | 34 ++++++++++++++++++++++++
 include/Taggle/impl/SchemaImpl.hpp       |  4 +--
 include/Taggle/impl/html/HTMLScanner.hpp | 27 +------------------
 4 files changed, 45 insertions(+), 41 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 41d4b0e..a6613e7 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -575,17 +575,10 @@ private:
       {
         // properly terminated ref
         int ent = lookupEntity(dst.substr(refStart, dst.size() - refStart - 1));
-        if(ent > 0xFFFF) 
+        if(ent != 0) 
         {
-          ent -= 0x10000;
-          dst[refStart - 1] = (char)((ent>>10) + 0xD800);
-          dst[refStart] = (char)((ent&0x3FF) + 0xDC00);
-          dst.erase(refStart + 1);
-        }
-        else if(ent != 0) 
-        {
-          dst[refStart - 1] = (char)ent;
-          dst.erase(refStart);  
+          dst.erase(refStart - 1);
+          dst += referencedCharacter(ent);
         }
         refStart = std::string::npos;
       }
@@ -615,9 +608,11 @@ private:
     {
       const char* b = buff.c_str();
       char* end;
-      if(buff.length() > 1 && (buff[1] == 'x' || buff[1] == 'X')) 
-        return strtol(b + 2, &end, 16);
-      return strtol(b + 1, &end, 10);
+      long ch = (buff.length() > 1 && (buff[1] == 'x' || buff[1] == 'X')) ?
+                strtol(b + 2, &end, 16) : strtol(b + 1, &end, 10);
+      if(ch < 0 || ch > 0x10FFFF)
+        return 0;    // no such character
+      return ch;
     }
     return schema_->getEntity(buff);
   } // lookupEntity
diff --git a/include/Taggle/impl/Scanner.hpp b/include/Taggle/impl/Scanner.hpp
index efc6a59..8523075 100755
--- a/include/Taggle/impl/Scanner.hpp
+++ b/include/Taggle/impl/Scanner.hpp
@@ -11,6 +11,40 @@ namespace SAX
 
 class ScanHandler;
 
+/**
+The UTF-8 encoding of a character given by a reference. Controls XML can't hold
+become spaces, surrogates and non-characters are dropped.
+*/
+inline std::string referencedCharacter(int ch)
+{
+  std::string utf8;
+  if (ch < 0x20 && ch != '\t' && ch != '\n' && ch != '\r')
+    utf8 += ' ';
+  else if (ch < 0x80)
+    utf8 += static_cast<char>(ch);
+  else if (ch < 0x800)
+  {
+    utf8 += static_cast<char>(0xC0 | (ch >> 6));
+    utf8 += static_cast<char>(0x80 | (ch & 0x3F));
+  }
+  else if ((ch >= 0xD800 && ch <= 0xDFFF) || ch == 0xFFFE || ch == 0xFFFF)
+    ;
+  else if (ch < 0x10000)
+  {
+    utf8 += static_cast<char>(0xE0 | (ch >> 12));
+    utf8 += static_cast<char>(0x80 | ((ch >> 6) & 0x3F));
+    utf8 += static_cast<char>(0x80 | (ch & 0x3F));
+  }
+  else
+  {
+    utf8 += static_cast<char>(0xF0 | (ch >> 18));
+    utf8 += static_cast<char>(0x80 | ((ch >> 12) & 0x3F));
+    utf8 += static_cast<char>(0x80 | ((ch >> 6) & 0x3F));
+    utf8 += static_cast<char>(0x80 | (ch & 0x3F));
+  }
+  return utf8;
+} // referencedCharacter
+
 /**
   An interface allowing Parser to invoke scanners.
 
diff --git a/include/Taggle/impl/SchemaImpl.hpp b/include/Taggle/impl/SchemaImpl.hpp
index 6e35994..9be435f 100644
--- a/include/Taggle/impl/SchemaImpl.hpp
+++ b/include/Taggle/impl/SchemaImpl.hpp
@@ -22,7 +22,7 @@ Based on code from John Cowan's super TagSoup package
 class SchemaImpl : public Schema
 {
 private:
-  std::map<std::string, char> entities_;
+  std::map<std::string, int> entities_;
   std::map<std::string, ElementType*> elementTypes_;
 
 	std::string URI_;
@@ -129,7 +129,7 @@ public:
 	**/
 	int getEntity(const std::string& name) const
   {
-    std::map<std::string, char>::const_iterator ent = entities_.find(name);
+    std::map<std::string, int>::const_iterator ent = entities_.find(name);
     if(ent == entities_.end())
       return 0;
 		return ent->second;
diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 1001b2d..7139381 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -340,32 +340,7 @@ public:
             if (ent != 0) 
             {
               outputBuffer_.clear();
-              if (ent >= 0x80 && ent <= 0x9F) 
-              {
-                //ent = WinCharMap[ent-0x80];
-              }
-              if (ent < 0x20) 
-              {
-                // Control becomes space
-                ent = 0x20;
-              }
-              else if (ent >= 0xD800 && ent <= 0xDFFF) 
-              {
-                // Surrogates get dropped
-                ent = 0;
-              }
-              else if (ent <= 0xFFFF) 
-              {
-                // BMP character
-                save(ent, h);
-              }
-              else 
-              {
-                // Astral converted to two surrogates
-                ent -= 0x10000;
-                save((ent>>10) + 0xD800, h);
-                save((ent&0x3FF) + 0xDC00, h);
-              }
+              outputBuffer_ += referencedCharacter(ent);
               if (ch != ';') 
               {
                 r.unget();
-- 
2.43.0


From a3b936fe30046c014ad54b21d8f0a0c4a7a1fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 074/106] fix: declare all the HTML 4.01 character entities

---
 include/Taggle/impl/html/HTMLSchema.hpp | 304 ++++++++++++------------
 1 file changed, 152 insertions(+), 152 deletions(-)

diff --git a/include/Taggle/impl/html/HTMLSchema.hpp b/include/Taggle/impl/html/HTMLSchema.hpp
index 010714b..2a70b30 100644
--- a/include/Taggle/impl/html/HTMLSchema.hpp
+++ b/include/Taggle/impl/html/HTMLSchema.hpp
@@ -852,21 +852,21 @@ private:
 		//entity("Agr", 0x0391);
 		entity("agrave", 0x00E0);
 		entity("Agrave", 0x00C0);
-		//entity("alefsym", 0x2135);
+		entity("alefsym", 0x2135);
 		//entity("aleph", 0x2135);
-		//entity("alpha", 0x03B1);
-		//entity("Alpha", 0x0391);
+		entity("alpha", 0x03B1);
+		entity("Alpha", 0x0391);
 		//entity("amacr", 0x0101);
 		//entity("Amacr", 0x0100);
 		//entity("amalg", 0x2A3F);
 		entity("amp", 0x0026);
-		//entity("and", 0x2227);
+		entity("and", 0x2227);
 		//entity("And", 0x2A53);
 		//entity("andand", 0x2A55);
 		//entity("andd", 0x2A5C);
 		//entity("andslope", 0x2A58);
 		//entity("andv", 0x2A5A);
-		//entity("ang", 0x2220);
+		entity("ang", 0x2220);
 		//entity("ange", 0x29A4);
 		//entity("angle", 0x2220);
 		//entity("angmsd", 0x2221);
@@ -903,7 +903,7 @@ private:
 		//entity("Ascr", 0x1D49C);
 		//entity("Assign", 0x2254);
 		entity("ast", 0x002A);
-		//entity("asymp", 0x2248);
+		entity("asymp", 0x2248);
 		//entity("asympeq", 0x224D);
 		entity("atilde", 0x00E3);
 		entity("Atilde", 0x00C3);
@@ -970,15 +970,15 @@ private:
 		//entity("bcong", 0x224C);
 		//entity("bcy", 0x0431);
 		//entity("Bcy", 0x0411);
-		//entity("bdquo", 0x201E);
+		entity("bdquo", 0x201E);
 		//entity("becaus", 0x2235);
 		//entity("because", 0x2235);
 		//entity("bemptyv", 0x29B0);
 		//entity("bepsi", 0x03F6);
 		//entity("bernou", 0x212C);
 		//entity("Bernoullis", 0x212C);
-		//entity("beta", 0x03B2);
-		//entity("Beta", 0x0392);
+		entity("beta", 0x03B2);
+		entity("Beta", 0x0392);
 		//entity("beth", 0x2136);
 		//entity("between", 0x226C);
 		//entity("bfr", 0x1D51F);
@@ -1071,7 +1071,7 @@ private:
 		//entity("bsime", 0x22CD);
 		entity("bsol", 0x005C);
 		//entity("bsolb", 0x29C5);
-		//entity("bull", 0x2022);
+		entity("bull", 0x2022);
 		//entity("bullet", 0x2022);
 		//entity("bump", 0x224E);
 		//entity("bumpe", 0x224F);
@@ -1080,7 +1080,7 @@ private:
 		//entity("Bumpeq", 0x224E);
 		//entity("cacute", 0x0107);
 		//entity("Cacute", 0x0106);
-		//entity("cap", 0x2229);
+		entity("cap", 0x2229);
 		//entity("Cap", 0x22D2);
 		//entity("capand", 0x2A44);
 		//entity("capbrcup", 0x2A49);
@@ -1114,10 +1114,10 @@ private:
 		//entity("CHcy", 0x0427);
 		//entity("check", 0x2713);
 		//entity("checkmark", 0x2713);
-		//entity("chi", 0x03C7);
-		//entity("Chi", 0x03A7);
+		entity("chi", 0x03C7);
+		entity("Chi", 0x03A7);
 		//entity("cir", 0x25CB);
-		//entity("circ", 0x02C6);
+		entity("circ", 0x02C6);
 		//entity("circeq", 0x2257);
 		//entity("circlearrowleft", 0x21BA);
 		//entity("circlearrowright", 0x21BB);
@@ -1138,7 +1138,7 @@ private:
 		//entity("ClockwiseContourIntegral", 0x2232);
 		//entity("CloseCurlyDoubleQuote", 0x201D);
 		//entity("CloseCurlyQuote", 0x2019);
-		//entity("clubs", 0x2663);
+		entity("clubs", 0x2663);
 		//entity("clubsuit", 0x2663);
 		entity("colon", 0x003A);
 		//entity("Colon", 0x2237);
@@ -1151,7 +1151,7 @@ private:
 		//entity("compfn", 0x2218);
 		//entity("complement", 0x2201);
 		//entity("complexes", 0x2102);
-		//entity("cong", 0x2245);
+		entity("cong", 0x2245);
 		//entity("congdot", 0x2A6D);
 		//entity("Congruent", 0x2261);
 		//entity("conint", 0x222E);
@@ -1164,7 +1164,7 @@ private:
 		entity("copy", 0x00A9);
 		//entity("copysr", 0x2117);
 		//entity("CounterClockwiseContourIntegral", 0x2233);
-		//entity("crarr", 0x21B5);
+		entity("crarr", 0x21B5);
 		//entity("cross", 0x2717);
 		//entity("Cross", 0x2A2F);
 		//entity("cscr", 0x1D4B8);
@@ -1180,7 +1180,7 @@ private:
 		//entity("cuesc", 0x22DF);
 		//entity("cularr", 0x21B6);
 		//entity("cularrp", 0x293D);
-		//entity("cup", 0x222A);
+		entity("cup", 0x222A);
 		//entity("Cup", 0x22D3);
 		//entity("cupbrcap", 0x2A48);
 		//entity("cupcap", 0x2A46);
@@ -1202,11 +1202,11 @@ private:
 		//entity("cwconint", 0x2232);
 		//entity("cwint", 0x2231);
 		//entity("cylcty", 0x232D);
-		//entity("dagger", 0x2020);
-		//entity("Dagger", 0x2021);
+		entity("dagger", 0x2020);
+		entity("Dagger", 0x2021);
 		//entity("daleth", 0x2138);
-		//entity("darr", 0x2193);
-		//entity("dArr", 0x21D3);
+		entity("darr", 0x2193);
+		entity("dArr", 0x21D3);
 		//entity("Darr", 0x21A1);
 		//entity("dash", 0x2010);
 		//entity("dashv", 0x22A3);
@@ -1225,8 +1225,8 @@ private:
 		//entity("ddotseq", 0x2A77);
 		entity("deg", 0x00B0);
 		//entity("Del", 0x2207);
-		//entity("delta", 0x03B4);
-		//entity("Delta", 0x0394);
+		entity("delta", 0x03B4);
+		entity("Delta", 0x0394);
 		//entity("demptyv", 0x29B1);
 		//entity("dfisht", 0x297F);
 		//entity("dfr", 0x1D521);
@@ -1244,7 +1244,7 @@ private:
 		//entity("diam", 0x22C4);
 		//entity("diamond", 0x22C4);
 		//entity("diamondsuit", 0x2666);
-		//entity("diams", 0x2666);
+		entity("diams", 0x2666);
 		entity("die", 0x00A8);
 		//entity("DifferentialD", 0x2146);
 		//entity("digamma", 0x03DD);
@@ -1358,17 +1358,17 @@ private:
 		//entity("elsdot", 0x2A97);
 		//entity("emacr", 0x0113);
 		//entity("Emacr", 0x0112);
-		//entity("empty", 0x2205);
+		entity("empty", 0x2205);
 		//entity("emptyset", 0x2205);
 		//entity("EmptySmallSquare", 0x25FB);
 		//entity("emptyv", 0x2205);
 		//entity("EmptyVerySmallSquare", 0x25AB);
-		//entity("emsp", 0x2003);
+		entity("emsp", 0x2003);
 		//entity("emsp13", 0x2004);
 		//entity("emsp14", 0x2005);
 		//entity("eng", 0x014B);
 		//entity("ENG", 0x014A);
-		//entity("ensp", 0x2002);
+		entity("ensp", 0x2002);
 		//entity("eogon", 0x0119);
 		//entity("Eogon", 0x0118);
 		//entity("eopf", 0x1D556);
@@ -1377,8 +1377,8 @@ private:
 		//entity("eparsl", 0x29E3);
 		//entity("eplus", 0x2A71);
 		//entity("epsi", 0x03F5);
-		//entity("epsilon", 0x03B5);
-		//entity("Epsilon", 0x0395);
+		entity("epsilon", 0x03B5);
+		entity("Epsilon", 0x0395);
 		//entity("epsiv", 0x03B5);
 		//entity("eqcirc", 0x2256);
 		//entity("eqcolon", 0x2255);
@@ -1390,7 +1390,7 @@ private:
 		//entity("EqualTilde", 0x2242);
 		//entity("equest", 0x225F);
 		//entity("Equilibrium", 0x21CC);
-		//entity("equiv", 0x2261);
+		entity("equiv", 0x2261);
 		//entity("equivDD", 0x2A78);
 		//entity("eqvparsl", 0x29E5);
 		//entity("erarr", 0x2971);
@@ -1400,15 +1400,15 @@ private:
 		//entity("esdot", 0x2250);
 		//entity("esim", 0x2242);
 		//entity("Esim", 0x2A73);
-		//entity("eta", 0x03B7);
-		//entity("Eta", 0x0397);
+		entity("eta", 0x03B7);
+		entity("Eta", 0x0397);
 		entity("eth", 0x00F0);
 		entity("ETH", 0x00D0);
 		entity("euml", 0x00EB);
 		entity("Euml", 0x00CB);
-		//entity("euro", 0x20AC);
+		entity("euro", 0x20AC);
 		entity("excl", 0x0021);
-		//entity("exist", 0x2203);
+		entity("exist", 0x2203);
 		//entity("Exists", 0x2203);
 		//entity("expectation", 0x2130);
 		//entity("exponentiale", 0x2147);
@@ -1427,10 +1427,10 @@ private:
 		//entity("flat", 0x266D);
 		//entity("fllig", 0xFB02);
 		//entity("fltns", 0x25B1);
-		//entity("fnof", 0x0192);
+		entity("fnof", 0x0192);
 		//entity("fopf", 0x1D557);
 		//entity("Fopf", 0x1D53D);
-		//entity("forall", 0x2200);
+		entity("forall", 0x2200);
 		//entity("fork", 0x22D4);
 		//entity("forkv", 0x2AD9);
 		//entity("Fouriertrf", 0x2131);
@@ -1450,13 +1450,13 @@ private:
 		//entity("frac56", 0x215A);
 		//entity("frac58", 0x215D);
 		//entity("frac78", 0x215E);
-		//entity("frasl", 0x2044);
+		entity("frasl", 0x2044);
 		//entity("frown", 0x2322);
 		//entity("fscr", 0x1D4BB);
 		//entity("Fscr", 0x2131);
 		//entity("gacute", 0x01F5);
-		//entity("gamma", 0x03B3);
-		//entity("Gamma", 0x0393);
+		entity("gamma", 0x03B3);
+		entity("Gamma", 0x0393);
 		//entity("gammad", 0x03DD);
 		//entity("Gammad", 0x03DC);
 		//entity("gap", 0x2A86);
@@ -1469,7 +1469,7 @@ private:
 		//entity("Gcy", 0x0413);
 		//entity("gdot", 0x0121);
 		//entity("Gdot", 0x0120);
-		//entity("ge", 0x2265);
+		entity("ge", 0x2265);
 		//entity("gE", 0x2267);
 		//entity("gel", 0x22DB);
 		//entity("gEl", 0x2A8C);
@@ -1538,17 +1538,17 @@ private:
 		//entity("hamilt", 0x210B);
 		//entity("hardcy", 0x044A);
 		//entity("HARDcy", 0x042A);
-		//entity("harr", 0x2194);
-		//entity("hArr", 0x21D4);
+		entity("harr", 0x2194);
+		entity("hArr", 0x21D4);
 		//entity("harrcir", 0x2948);
 		//entity("harrw", 0x21AD);
 		entity("Hat", 0x005E);
 		//entity("hbar", 0x210F);
 		//entity("hcirc", 0x0125);
 		//entity("Hcirc", 0x0124);
-		//entity("hearts", 0x2665);
+		entity("hearts", 0x2665);
 		//entity("heartsuit", 0x2665);
-		//entity("hellip", 0x2026);
+		entity("hellip", 0x2026);
 		//entity("hercon", 0x22B9);
 		//entity("hfr", 0x1D525);
 		//entity("Hfr", 0x210C);
@@ -1605,7 +1605,7 @@ private:
 		//entity("Im", 0x2111);
 		//entity("imacr", 0x012B);
 		//entity("Imacr", 0x012A);
-		//entity("image", 0x2111);
+		entity("image", 0x2111);
 		//entity("ImaginaryI", 0x2148);
 		//entity("imagline", 0x2110);
 		//entity("imagpart", 0x2111);
@@ -1615,10 +1615,10 @@ private:
 		//entity("Implies", 0x21D2);
 		//entity("in", 0x2208);
 		//entity("incare", 0x2105);
-		//entity("infin", 0x221E);
+		entity("infin", 0x221E);
 		//entity("infintie", 0x29DD);
 		//entity("inodot", 0x0131);
-		//entity("int", 0x222B);
+		entity("int", 0x222B);
 		//entity("Int", 0x222C);
 		//entity("intcal", 0x22BA);
 		//entity("integers", 0x2124);
@@ -1635,13 +1635,13 @@ private:
 		//entity("Iogon", 0x012E);
 		//entity("iopf", 0x1D55A);
 		//entity("Iopf", 0x1D540);
-		//entity("iota", 0x03B9);
-		//entity("Iota", 0x0399);
+		entity("iota", 0x03B9);
+		entity("Iota", 0x0399);
 		//entity("iprod", 0x2A3C);
 		entity("iquest", 0x00BF);
 		//entity("iscr", 0x1D4BE);
 		//entity("Iscr", 0x2110);
-		//entity("isin", 0x2208);
+		entity("isin", 0x2208);
 		//entity("isindot", 0x22F5);
 		//entity("isinE", 0x22F9);
 		//entity("isins", 0x22F4);
@@ -1669,8 +1669,8 @@ private:
 		//entity("Jsercy", 0x0408);
 		//entity("jukcy", 0x0454);
 		//entity("Jukcy", 0x0404);
-		//entity("kappa", 0x03BA);
-		//entity("Kappa", 0x039A);
+		entity("kappa", 0x03BA);
+		entity("Kappa", 0x039A);
 		//entity("kappav", 0x03F0);
 		//entity("kcedil", 0x0137);
 		//entity("Kcedil", 0x0136);
@@ -1696,17 +1696,17 @@ private:
 		//entity("Lacute", 0x0139);
 		//entity("laemptyv", 0x29B4);
 		//entity("lagran", 0x2112);
-		//entity("lambda", 0x03BB);
-		//entity("Lambda", 0x039B);
-		//entity("lang", 0x2329);
+		entity("lambda", 0x03BB);
+		entity("Lambda", 0x039B);
+		entity("lang", 0x2329);
 		//entity("Lang", 0x27EA);
 		//entity("langd", 0x2991);
 		//entity("langle", 0x2329);
 		//entity("lap", 0x2A85);
 		//entity("Laplacetrf", 0x2112);
 		entity("laquo", 0x00AB);
-		//entity("larr", 0x2190);
-		//entity("lArr", 0x21D0);
+		entity("larr", 0x2190);
+		entity("lArr", 0x21D0);
 		//entity("Larr", 0x219E);
 		//entity("larrb", 0x21E4);
 		//entity("larrbfs", 0x291F);
@@ -1732,17 +1732,17 @@ private:
 		//entity("Lcaron", 0x013D);
 		//entity("lcedil", 0x013C);
 		//entity("Lcedil", 0x013B);
-		//entity("lceil", 0x2308);
+		entity("lceil", 0x2308);
 		entity("lcub", 0x007B);
 		//entity("lcy", 0x043B);
 		//entity("Lcy", 0x041B);
 		//entity("ldca", 0x2936);
-		//entity("ldquo", 0x201C);
+		entity("ldquo", 0x201C);
 		//entity("ldquor", 0x201E);
 		//entity("ldrdhar", 0x2967);
 		//entity("ldrushar", 0x294B);
 		//entity("ldsh", 0x21B2);
-		//entity("le", 0x2264);
+		entity("le", 0x2264);
 		//entity("lE", 0x2266);
 		//entity("LeftAngleBracket", 0x2329);
 		//entity("leftarrow", 0x2190);
@@ -1802,7 +1802,7 @@ private:
 		//entity("LessSlantEqual", 0x2A7D);
 		//entity("LessTilde", 0x2272);
 		//entity("lfisht", 0x297C);
-		//entity("lfloor", 0x230A);
+		entity("lfloor", 0x230A);
 		//entity("lfr", 0x1D529);
 		//entity("Lfr", 0x1D50F);
 		//entity("lg", 0x2276);
@@ -1851,11 +1851,11 @@ private:
 		//entity("Lopf", 0x1D543);
 		//entity("loplus", 0x2A2D);
 		//entity("lotimes", 0x2A34);
-		//entity("lowast", 0x2217);
+		entity("lowast", 0x2217);
 		entity("lowbar", 0x005F);
 		//entity("LowerLeftArrow", 0x2199);
 		//entity("LowerRightArrow", 0x2198);
-		//entity("loz", 0x25CA);
+		entity("loz", 0x25CA);
 		//entity("lozenge", 0x25CA);
 		//entity("lozf", 0x29EB);
 		entity("lpar", 0x0028);
@@ -1864,9 +1864,9 @@ private:
 		//entity("lrcorner", 0x231F);
 		//entity("lrhar", 0x21CB);
 		//entity("lrhard", 0x296D);
-		//entity("lrm", 0x200E);
+		entity("lrm", 0x200E);
 		//entity("lrtri", 0x22BF);
-		//entity("lsaquo", 0x2039);
+		entity("lsaquo", 0x2039);
 		//entity("lscr", 0x1D4C1);
 		//entity("Lscr", 0x2112);
 		//entity("lsh", 0x21B0);
@@ -1874,7 +1874,7 @@ private:
 		//entity("lsime", 0x2A8D);
 		//entity("lsimg", 0x2A8F);
 		entity("lsqb", 0x005B);
-		//entity("lsquo", 0x2018);
+		entity("lsquo", 0x2018);
 		//entity("lsquor", 0x201A);
 		//entity("lstrok", 0x0142);
 		//entity("Lstrok", 0x0141);
@@ -1907,7 +1907,7 @@ private:
 		//entity("mcomma", 0x2A29);
 		//entity("mcy", 0x043C);
 		//entity("Mcy", 0x041C);
-		//entity("mdash", 0x2014);
+		entity("mdash", 0x2014);
 		//entity("mDDot", 0x223A);
 		//entity("measuredangle", 0x2221);
 		//entity("MediumSpace", 0x205F);
@@ -1922,7 +1922,7 @@ private:
 		//entity("midast", 0x002A);
 		//entity("midcir", 0x2AF0);
 		entity("middot", 0x00B7);
-		//entity("minus", 0x2212);
+		entity("minus", 0x2212);
 		//entity("minusb", 0x229F);
 		//entity("minusd", 0x2238);
 		//entity("minusdu", 0x2A2A);
@@ -1937,11 +1937,11 @@ private:
 		//entity("mscr", 0x1D4C2);
 		//entity("Mscr", 0x2133);
 		//entity("mstpos", 0x223E);
-		//entity("mu", 0x03BC);
-		//entity("Mu", 0x039C);
+		entity("mu", 0x03BC);
+		entity("Mu", 0x039C);
 		//entity("multimap", 0x22B8);
 		//entity("mumap", 0x22B8);
-		//entity("nabla", 0x2207);
+		entity("nabla", 0x2207);
 		//entity("nacute", 0x0144);
 		//entity("Nacute", 0x0143);
 		//entity("nap", 0x2249);
@@ -1960,8 +1960,8 @@ private:
 		//entity("ncup", 0x2A42);
 		//entity("ncy", 0x043D);
 		//entity("Ncy", 0x041D);
-		//entity("ndash", 0x2013);
-		//entity("ne", 0x2260);
+		entity("ndash", 0x2013);
+		entity("ne", 0x2260);
 		//entity("nearhk", 0x2924);
 		//entity("nearr", 0x2197);
 		//entity("neArr", 0x21D7);
@@ -1989,7 +1989,7 @@ private:
 		//entity("nharr", 0x21AE);
 		//entity("nhArr", 0x21CE);
 		//entity("nhpar", 0x2AF2);
-		//entity("ni", 0x220B);
+		entity("ni", 0x220B);
 		//entity("nis", 0x22FC);
 		//entity("nisd", 0x22FA);
 		//entity("niv", 0x220B);
@@ -2026,7 +2026,7 @@ private:
 		//entity("NotGreaterEqual", 0x2271);
 		//entity("NotGreaterLess", 0x2279);
 		//entity("NotGreaterTilde", 0x2275);
-		//entity("notin", 0x2209);
+		entity("notin", 0x2209);
 		//entity("notinva", 0x2209);
 		//entity("notinvb", 0x22F7);
 		//entity("notinvc", 0x22F6);
@@ -2081,7 +2081,7 @@ private:
 		//entity("nspar", 0x2226);
 		//entity("nsqsube", 0x22E2);
 		//entity("nsqsupe", 0x22E3);
-		//entity("nsub", 0x2284);
+		entity("nsub", 0x2284);
 		//entity("nsube", 0x2288);
 		//entity("nsubseteq", 0x2288);
 		//entity("nsucc", 0x2281);
@@ -2096,8 +2096,8 @@ private:
 		//entity("ntrianglelefteq", 0x22EC);
 		//entity("ntriangleright", 0x22EB);
 		//entity("ntrianglerighteq", 0x22ED);
-		//entity("nu", 0x03BD);
-		//entity("Nu", 0x039D);
+		entity("nu", 0x03BD);
+		entity("Nu", 0x039D);
 		entity("num", 0x0023);
 		//entity("numero", 0x2116);
 		//entity("numsp", 0x2007);
@@ -2130,8 +2130,8 @@ private:
 		//entity("odiv", 0x2A38);
 		//entity("odot", 0x2299);
 		//entity("odsold", 0x29BC);
-		//entity("oelig", 0x0153);
-		//entity("OElig", 0x0152);
+		entity("oelig", 0x0153);
+		entity("OElig", 0x0152);
 		//entity("ofcir", 0x29BF);
 		//entity("ofr", 0x1D52C);
 		//entity("Ofr", 0x1D512);
@@ -2151,14 +2151,14 @@ private:
 		//entity("olarr", 0x21BA);
 		//entity("olcir", 0x29BE);
 		//entity("olcross", 0x29BB);
-		//entity("oline", 0x203E);
+		entity("oline", 0x203E);
 		//entity("olt", 0x29C0);
 		//entity("omacr", 0x014D);
 		//entity("Omacr", 0x014C);
-		//entity("omega", 0x03C9);
-		//entity("Omega", 0x03A9);
-		//entity("omicron", 0x03BF);
-		//entity("Omicron", 0x039F);
+		entity("omega", 0x03C9);
+		entity("Omega", 0x03A9);
+		entity("omicron", 0x03BF);
+		entity("Omicron", 0x039F);
 		//entity("omid", 0x29B6);
 		//entity("ominus", 0x2296);
 		//entity("oopf", 0x1D560);
@@ -2167,8 +2167,8 @@ private:
 		//entity("OpenCurlyDoubleQuote", 0x201C);
 		//entity("OpenCurlyQuote", 0x2018);
 		//entity("operp", 0x29B9);
-		//entity("oplus", 0x2295);
-		//entity("or", 0x2228);
+		entity("oplus", 0x2295);
+		entity("or", 0x2228);
 		//entity("Or", 0x2A54);
 		//entity("orarr", 0x21BB);
 		//entity("ord", 0x2A5D);
@@ -2188,7 +2188,7 @@ private:
 		//entity("osol", 0x2298);
 		entity("otilde", 0x00F5);
 		entity("Otilde", 0x00D5);
-		//entity("otimes", 0x2297);
+		entity("otimes", 0x2297);
 		//entity("Otimes", 0x2A37);
 		//entity("otimesas", 0x2A36);
 		entity("ouml", 0x00F6);
@@ -2203,14 +2203,14 @@ private:
 		//entity("parallel", 0x2225);
 		//entity("parsim", 0x2AF3);
 		//entity("parsl", 0x2AFD);
-		//entity("part", 0x2202);
+		entity("part", 0x2202);
 		//entity("PartialD", 0x2202);
 		//entity("pcy", 0x043F);
 		//entity("Pcy", 0x041F);
 		entity("percnt", 0x0025);
 		entity("period", 0x002E);
-		//entity("permil", 0x2030);
-		//entity("perp", 0x22A5);
+		entity("permil", 0x2030);
+		entity("perp", 0x22A5);
 		//entity("pertenk", 0x2031);
 		//entity("pfr", 0x1D52D);
 		//entity("Pfr", 0x1D513);
@@ -2218,15 +2218,15 @@ private:
 		//entity("Pgr", 0x03A0);
 		//entity("phgr", 0x03C6);
 		//entity("PHgr", 0x03A6);
-		//entity("phi", 0x03D5);
-		//entity("Phi", 0x03A6);
+		entity("phi", 0x03C6);
+		entity("Phi", 0x03A6);
 		//entity("phiv", 0x03C6);
 		//entity("phmmat", 0x2133);
 		//entity("phone", 0x260E);
-		//entity("pi", 0x03C0);
-		//entity("Pi", 0x03A0);
+		entity("pi", 0x03C0);
+		entity("Pi", 0x03A0);
 		//entity("pitchfork", 0x22D4);
-		//entity("piv", 0x03D6);
+		entity("piv", 0x03D6);
 		//entity("planck", 0x210F);
 		//entity("planckh", 0x210E);
 		//entity("plankv", 0x210F);
@@ -2265,18 +2265,18 @@ private:
 		//entity("precneqq", 0x2AB5);
 		//entity("precnsim", 0x22E8);
 		//entity("precsim", 0x227E);
-		//entity("prime", 0x2032);
-		//entity("Prime", 0x2033);
+		entity("prime", 0x2032);
+		entity("Prime", 0x2033);
 		//entity("primes", 0x2119);
 		//entity("prnap", 0x2AB9);
 		//entity("prnE", 0x2AB5);
 		//entity("prnsim", 0x22E8);
-		//entity("prod", 0x220F);
+		entity("prod", 0x220F);
 		//entity("Product", 0x220F);
 		//entity("profalar", 0x232E);
 		//entity("profline", 0x2312);
 		//entity("profsurf", 0x2313);
-		//entity("prop", 0x221D);
+		entity("prop", 0x221D);
 		//entity("Proportion", 0x2237);
 		//entity("Proportional", 0x221D);
 		//entity("propto", 0x221D);
@@ -2286,8 +2286,8 @@ private:
 		//entity("Pscr", 0x1D4AB);
 		//entity("psgr", 0x03C8);
 		//entity("PSgr", 0x03A8);
-		//entity("psi", 0x03C8);
-		//entity("Psi", 0x03A8);
+		entity("psi", 0x03C8);
+		entity("Psi", 0x03A8);
 		//entity("puncsp", 0x2008);
 		//entity("qfr", 0x1D52E);
 		//entity("Qfr", 0x1D514);
@@ -2306,16 +2306,16 @@ private:
 		//entity("race", 0x29DA);
 		//entity("racute", 0x0155);
 		//entity("Racute", 0x0154);
-		//entity("radic", 0x221A);
+		entity("radic", 0x221A);
 		//entity("raemptyv", 0x29B3);
-		//entity("rang", 0x232A);
+		entity("rang", 0x232A);
 		//entity("Rang", 0x27EB);
 		//entity("rangd", 0x2992);
 		//entity("range", 0x29A5);
 		//entity("rangle", 0x232A);
 		entity("raquo", 0x00BB);
-		//entity("rarr", 0x2192);
-		//entity("rArr", 0x21D2);
+		entity("rarr", 0x2192);
+		entity("rArr", 0x21D2);
 		//entity("Rarr", 0x21A0);
 		//entity("rarrap", 0x2975);
 		//entity("rarrb", 0x21E5);
@@ -2346,17 +2346,17 @@ private:
 		//entity("Rcaron", 0x0158);
 		//entity("rcedil", 0x0157);
 		//entity("Rcedil", 0x0156);
-		//entity("rceil", 0x2309);
+		entity("rceil", 0x2309);
 		entity("rcub", 0x007D);
 		//entity("rcy", 0x0440);
 		//entity("Rcy", 0x0420);
 		//entity("rdca", 0x2937);
 		//entity("rdldhar", 0x2969);
-		//entity("rdquo", 0x201D);
+		entity("rdquo", 0x201D);
 		//entity("rdquor", 0x201D);
 		//entity("rdsh", 0x21B3);
 		//entity("Re", 0x211C);
-		//entity("real", 0x211C);
+		entity("real", 0x211C);
 		//entity("realine", 0x211B);
 		//entity("realpart", 0x211C);
 		//entity("reals", 0x211D);
@@ -2366,7 +2366,7 @@ private:
 		//entity("ReverseEquilibrium", 0x21CB);
 		//entity("ReverseUpEquilibrium", 0x296F);
 		//entity("rfisht", 0x297D);
-		//entity("rfloor", 0x230B);
+		entity("rfloor", 0x230B);
 		//entity("rfr", 0x1D52F);
 		//entity("Rfr", 0x211C);
 		//entity("rgr", 0x03C1);
@@ -2375,8 +2375,8 @@ private:
 		//entity("rhard", 0x21C1);
 		//entity("rharu", 0x21C0);
 		//entity("rharul", 0x296C);
-		//entity("rho", 0x03C1);
-		//entity("Rho", 0x03A1);
+		entity("rho", 0x03C1);
+		entity("Rho", 0x03A1);
 		//entity("rhov", 0x03F1);
 		//entity("RightAngleBracket", 0x232A);
 		//entity("rightarrow", 0x2192);
@@ -2413,7 +2413,7 @@ private:
 		//entity("risingdotseq", 0x2253);
 		//entity("rlarr", 0x21C4);
 		//entity("rlhar", 0x21CC);
-		//entity("rlm", 0x200F);
+		entity("rlm", 0x200F);
 		//entity("rmoust", 0x23B1);
 		//entity("rmoustache", 0x23B1);
 		//entity("rnmid", 0x2AEE);
@@ -2431,12 +2431,12 @@ private:
 		//entity("rppolint", 0x2A12);
 		//entity("rrarr", 0x21C9);
 		//entity("Rrightarrow", 0x21DB);
-		//entity("rsaquo", 0x203A);
+		entity("rsaquo", 0x203A);
 		//entity("rscr", 0x1D4C7);
 		//entity("Rscr", 0x211B);
 		//entity("rsh", 0x21B1);
 		entity("rsqb", 0x005D);
-		//entity("rsquo", 0x2019);
+		entity("rsquo", 0x2019);
 		//entity("rsquor", 0x2019);
 		//entity("rthree", 0x22CC);
 		//entity("rtimes", 0x22CA);
@@ -2449,12 +2449,12 @@ private:
 		//entity("rx", 0x211E);
 		//entity("sacute", 0x015B);
 		//entity("Sacute", 0x015A);
-		//entity("sbquo", 0x201A);
+		entity("sbquo", 0x201A);
 		//entity("sc", 0x227B);
 		//entity("Sc", 0x2ABC);
 		//entity("scap", 0x2AB8);
-		//entity("scaron", 0x0161);
-		//entity("Scaron", 0x0160);
+		entity("scaron", 0x0161);
+		entity("Scaron", 0x0160);
 		//entity("sccue", 0x227D);
 		//entity("sce", 0x2AB0);
 		//entity("scE", 0x2AB4);
@@ -2469,7 +2469,7 @@ private:
 		//entity("scsim", 0x227F);
 		//entity("scy", 0x0441);
 		//entity("Scy", 0x0421);
-		//entity("sdot", 0x22C5);
+		entity("sdot", 0x22C5);
 		//entity("sdotb", 0x22A1);
 		//entity("sdote", 0x2A66);
 		//entity("searhk", 0x2925);
@@ -2500,11 +2500,11 @@ private:
 		//entity("ShortRightArrow", 0x2192);
 		//entity("ShortUpArrow", 0x2191);
 		entity("shy", 0x00AD);
-		//entity("sigma", 0x03C3);
-		//entity("Sigma", 0x03A3);
-		//entity("sigmaf", 0x03C2);
+		entity("sigma", 0x03C3);
+		entity("Sigma", 0x03A3);
+		entity("sigmaf", 0x03C2);
 		//entity("sigmav", 0x03C2);
-		//entity("sim", 0x223C);
+		entity("sim", 0x223C);
 		//entity("simdot", 0x2A6A);
 		//entity("sime", 0x2243);
 		//entity("simeq", 0x2243);
@@ -2531,7 +2531,7 @@ private:
 		//entity("solbar", 0x233F);
 		//entity("sopf", 0x1D564);
 		//entity("Sopf", 0x1D54A);
-		//entity("spades", 0x2660);
+		entity("spades", 0x2660);
 		//entity("spadesuit", 0x2660);
 		//entity("spar", 0x2225);
 		//entity("sqcap", 0x2293);
@@ -2567,10 +2567,10 @@ private:
 		//entity("straightepsilon", 0x03F5);
 		//entity("straightphi", 0x03D5);
 		entity("strns", 0x00AF);
-		//entity("sub", 0x2282);
+		entity("sub", 0x2282);
 		//entity("Sub", 0x22D0);
 		//entity("subdot", 0x2ABD);
-		//entity("sube", 0x2286);
+		entity("sube", 0x2286);
 		//entity("subE", 0x2AC5);
 		//entity("subedot", 0x2AC3);
 		//entity("submult", 0x2AC1);
@@ -2601,16 +2601,16 @@ private:
 		//entity("succnsim", 0x22E9);
 		//entity("succsim", 0x227F);
 		//entity("SuchThat", 0x220B);
-		//entity("sum", 0x2211);
+		entity("sum", 0x2211);
 		//entity("sung", 0x266A);
-		//entity("sup", 0x2283);
+		entity("sup", 0x2283);
 		//entity("Sup", 0x22D1);
 		entity("sup1", 0x00B9);
 		entity("sup2", 0x00B2);
 		entity("sup3", 0x00B3);
 		//entity("supdot", 0x2ABE);
 		//entity("supdsub", 0x2AD8);
-		//entity("supe", 0x2287);
+		entity("supe", 0x2287);
 		//entity("supE", 0x2AC6);
 		//entity("supedot", 0x2AC4);
 		//entity("Superset", 0x2283);
@@ -2638,8 +2638,8 @@ private:
 		entity("szlig", 0x00DF);
 		entity("Tab", 0x0009);
 		//entity("target", 0x2316);
-		//entity("tau", 0x03C4);
-		//entity("Tau", 0x03A4);
+		entity("tau", 0x03C4);
+		entity("Tau", 0x03A4);
 		//entity("tbrk", 0x23B4);
 		//entity("tcaron", 0x0165);
 		//entity("Tcaron", 0x0164);
@@ -2652,23 +2652,23 @@ private:
 		//entity("Tfr", 0x1D517);
 		//entity("tgr", 0x03C4);
 		//entity("Tgr", 0x03A4);
-		//entity("there4", 0x2234);
+		entity("there4", 0x2234);
 		//entity("therefore", 0x2234);
-		//entity("theta", 0x03B8);
-		//entity("Theta", 0x0398);
-		//entity("thetasym", 0x03D1);
+		entity("theta", 0x03B8);
+		entity("Theta", 0x0398);
+		entity("thetasym", 0x03D1);
 		//entity("thetav", 0x03D1);
 		//entity("thgr", 0x03B8);
 		//entity("THgr", 0x0398);
 		//entity("thickapprox", 0x2248);
 		//entity("thicksim", 0x223C);
-		//entity("thinsp", 0x2009);
+		entity("thinsp", 0x2009);
 		//entity("ThinSpace", 0x2009);
 		//entity("thkap", 0x2248);
 		//entity("thksim", 0x223C);
 		entity("thorn", 0x00FE);
 		entity("THORN", 0x00DE);
-		//entity("tilde", 0x02DC);
+		entity("tilde", 0x02DC);
 		//entity("Tilde", 0x223C);
 		//entity("TildeEqual", 0x2243);
 		//entity("TildeFullEqual", 0x2245);
@@ -2687,7 +2687,7 @@ private:
 		//entity("topfork", 0x2ADA);
 		//entity("tosa", 0x2929);
 		//entity("tprime", 0x2034);
-		//entity("trade", 0x2122);
+		entity("trade", 0x2122);
 		//entity("triangle", 0x25B5);
 		//entity("triangledown", 0x25BF);
 		//entity("triangleleft", 0x25C3);
@@ -2717,8 +2717,8 @@ private:
 		//entity("Uacgr", 0x038E);
 		entity("uacute", 0x00FA);
 		entity("Uacute", 0x00DA);
-		//entity("uarr", 0x2191);
-		//entity("uArr", 0x21D1);
+		entity("uarr", 0x2191);
+		entity("uArr", 0x21D1);
 		//entity("Uarr", 0x219F);
 		//entity("Uarrocir", 0x2949);
 		//entity("ubrcy", 0x045E);
@@ -2777,9 +2777,9 @@ private:
 		//entity("UpperRightArrow", 0x2197);
 		//entity("upsi", 0x03C5);
 		//entity("Upsi", 0x03D2);
-		//entity("upsih", 0x03D2);
-		//entity("upsilon", 0x03C5);
-		//entity("Upsilon", 0x03A5);
+		entity("upsih", 0x03D2);
+		entity("upsilon", 0x03C5);
+		entity("Upsilon", 0x03A5);
 		//entity("UpTee", 0x22A5);
 		//entity("UpTeeArrow", 0x21A5);
 		//entity("upuparrows", 0x21C8);
@@ -2855,7 +2855,7 @@ private:
 		//entity("wedge", 0x2227);
 		//entity("Wedge", 0x22C0);
 		//entity("wedgeq", 0x2259);
-		//entity("weierp", 0x2118);
+		entity("weierp", 0x2118);
 		//entity("wfr", 0x1D534);
 		//entity("Wfr", 0x1D51A);
 		//entity("wopf", 0x1D568);
@@ -2875,8 +2875,8 @@ private:
 		//entity("Xgr", 0x039E);
 		//entity("xharr", 0x27F7);
 		//entity("xhArr", 0x27FA);
-		//entity("xi", 0x03BE);
-		//entity("Xi", 0x039E);
+		entity("xi", 0x03BE);
+		entity("Xi", 0x039E);
 		//entity("xlarr", 0x27F5);
 		//entity("xlArr", 0x27F8);
 		//entity("xmap", 0x27FC);
@@ -2915,7 +2915,7 @@ private:
 		//entity("yucy", 0x044E);
 		//entity("YUcy", 0x042E);
 		entity("yuml", 0x00FF);
-		//entity("Yuml", 0x0178);
+		entity("Yuml", 0x0178);
 		//entity("zacute", 0x017A);
 		//entity("Zacute", 0x0179);
 		//entity("zcaron", 0x017E);
@@ -2926,8 +2926,8 @@ private:
 		//entity("Zdot", 0x017B);
 		//entity("zeetrf", 0x2128);
 		//entity("ZeroWidthSpace", 0x200B);
-		//entity("zeta", 0x03B6);
-		//entity("Zeta", 0x0396);
+		entity("zeta", 0x03B6);
+		entity("Zeta", 0x0396);
 		//entity("zfr", 0x1D537);
 		//entity("Zfr", 0x2128);
 		//entity("zgr", 0x03B6);
@@ -2939,8 +2939,8 @@ private:
 		//entity("Zopf", 0x2124);
 		//entity("zscr", 0x1D4CF);
 		//entity("Zscr", 0x1D4B5);
-		//entity("zwj", 0x200D);
-		//entity("zwnj", 0x200C);
+		entity("zwj", 0x200D);
+		entity("zwnj", 0x200C);
   } // entities
 
   HTMLSchema(const HTMLSchema&);
-- 
2.43.0


From d32e743cfa174c33b64dd9845aec6e6a74082d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 075/106] fix: HTML document type declarations

---
 include/Taggle/impl/Parser.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index a6613e7..dd5ae70 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -510,6 +510,7 @@ private:
     newElement_ = Element::Null;
     attributeName_ = "";
     piTarget_ = "";
+    doctypeIsPresent_ = false;
     saved_ = Element::Null;
     entity_ = 0;
     virginStack = true;
@@ -852,12 +853,12 @@ private:
     std::vector<std::string> v = split(buff);
     if((v.size() > 0) && ("DOCTYPE" == v[0])) 
     {
-      if(doctypeIsPresent_) 
-        return;    // one doctype only!
+      if(doctypeIsPresent_ || !virginStack) 
+        return;    // one doctype only, and before the root element!
       doctypeIsPresent_ = true;
       if(v.size() > 1) 
       {
-        name = v[1];
+        name = makeName(v[1]);
         if(v.size()>3 && "SYSTEM" == v[2]) 
         {
           systemid = v[3];
@@ -901,8 +902,8 @@ private:
       return in;
     char s = in[0];
     char e = in[length - 1];
-    if(s == e && (s == '\'' || s == '"')) 
-      return in.substr(1, length - 1);
+    if(length > 1 && s == e && (s == '\'' || s == '"')) 
+      return in.substr(1, length - 2);
     return in;
   } // trimquotes
 
@@ -944,7 +945,7 @@ private:
       {
         if(Arabica::XML::is_space(c)) 
         {
-          splits.push_back(v.substr(s, e));
+          splits.push_back(v.substr(s, e - s));
 				  s = std::string::npos;
 				}
         else if(s == std::string::npos && c != ' ') 
@@ -954,7 +955,7 @@ private:
       }
       lastc = c;
     } // for ...
-    splits.push_back(v.substr(s, e));
+    splits.push_back(v.substr(s, e - s));
 
     return splits;
   } // split
-- 
2.43.0


From 08108b7831cb30e04a5cf830e38005b071a31730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 076/106] fix: HTML attributes with empty values are not
 dropped

---
 include/Taggle/impl/Element.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Element.hpp b/include/Taggle/impl/Element.hpp
index 7b28ec6..a0b85c3 100755
--- a/include/Taggle/impl/Element.hpp
+++ b/include/Taggle/impl/Element.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_SAX_TAGSOUP_ELEMENT_HPP
 #define ARABICA_SAX_TAGSOUP_ELEMENT_HPP
 
+#include <set>
 #include <string>
 #include <SAX/helpers/AttributesImpl.hpp>
 #include "ElementType.hpp"
@@ -168,6 +169,7 @@ class Element_impl
 private:
   ElementType* type_;		// type of element
   AttributesImpl<std::string> atts_;		// attributes of element
+  std::set<std::string> specified_;		// names of the attributes given in the document
   Element next_;		// successor of element
   bool preclosed_;		// this element has been preclosed
   int refCount_;
@@ -212,6 +214,7 @@ public:
   void setAttribute(const std::string& name, const std::string& type, const std::string& value) 
   {
     type_->setAttribute(atts_, name, type, value);
+    specified_.insert(name);
   } // setAttribute
   
   void anonymize() 
@@ -228,7 +231,7 @@ public:
     for (int i = atts_.getLength() - 1; i >= 0; i--) 
     {
       const std::string& name = atts_.getLocalName(i);
-      if (atts_.getValue(i) == "" || name == "" || name.length() == 0) 
+      if ((atts_.getValue(i) == "" && specified_.count(atts_.getQName(i)) == 0) || name == "") 
       {
 	atts_.removeAttribute(i);
 	continue;
-- 
2.43.0


From 2b8ab0363aebc9bb202ec861f4cadb183d0da57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 077/106] fix: HTML scanner does not depend on the stream
 putting characters back

---
 include/Taggle/impl/html/HTMLScanner.hpp | 45 ++++++++++++++----------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 7139381..fc38e59 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -109,6 +109,8 @@ private:
   int state_;          // Current state
   int nextState_;        // Next state
   std::string outputBuffer_;  // Output buffer
+  int unread_;         // Character to be read again
+  static const int NOTHING_UNREAD = -2;
 
   // Compensate for bug in PushbackReader that allows
   // pushing back EOF.
@@ -126,7 +128,8 @@ public:
       currentColumn_(0),
       state_(0),
       nextState_(0),
-      outputBuffer_()
+      outputBuffer_(),
+      unread_(NOTHING_UNREAD)
   {
     outputBuffer_.reserve(200);
   } // HTMLScanner
@@ -174,6 +177,7 @@ public:
   virtual void scan(std::istream& r, ScanHandler& h)
   {
     state_ = S_PCDATA;
+    unread_ = NOTHING_UNREAD;
 /*    PushbackReader r;
     if (r0 instanceof PushbackReader) {
       r = (PushbackReader)r0;
@@ -190,7 +194,10 @@ public:
 
     while (state_ != S_DONE) 
     {
-      int ch = r.get();
+      int ch = unread_;
+      unread_ = NOTHING_UNREAD;
+      if (ch == NOTHING_UNREAD)
+        ch = r.get();
 
       // Process control characters
       //if (ch >= 0x80 && ch <= 0x9F) 
@@ -198,12 +205,9 @@ public:
 
       if (ch == '\r') 
       {
-        ch = r.get();    // expect LF next
-        if (ch != '\n') 
-        {
-          r.unget();
-          ch = '\n';
-        }
+        if (r.peek() == '\n')    // expect LF next
+          r.get();
+        ch = '\n';
       }
 
       if (ch == '\n') 
@@ -342,16 +346,10 @@ public:
               outputBuffer_.clear();
               outputBuffer_ += referencedCharacter(ent);
               if (ch != ';') 
-              {
-                r.unget();
-                currentColumn_--;
-              }
+                unread(ch);
             }
             else 
-            {
-              r.unget();
-              currentColumn_--;
-            }
+              unread(ch);
             nextState_ = S_PCDATA;
           } // case A_ENTITY:
           break;
@@ -439,8 +437,7 @@ public:
           h.stage(outputBuffer_);
           break;
         case A_UNGET:
-          r.unget();
-          currentColumn_--;
+          unread(ch);
           break;
         case A_UNSAVE_PCDATA:
          if (outputBuffer_.size() > 0) 
@@ -479,6 +476,18 @@ private:
     lastLine_ = currentLine_;
   } // mark
 
+  /**
+  * Have ch read again. The stream can't be relied on to put a character back.
+  */
+  void unread(int ch)
+  {
+    unread_ = ch;
+    if (ch == '\n')
+      --currentLine_;
+    else
+      --currentColumn_;
+  } // unread
+
   void save(int ch, ScanHandler& h)
   {
     if (outputBuffer_.size() >= outputBuffer_.capacity() - 20) 
-- 
2.43.0


From 638aa7380166626d1354bd6aa734bea3f5c6aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 078/106] fix: script and style content is reported verbatim

---
 include/Taggle/impl/Parser.hpp           | 26 ++++++++++--------------
 include/Taggle/impl/html/HTMLScanner.hpp | 10 +++++----
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index dd5ae70..a756619 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -636,7 +636,7 @@ private:
     // std::cerr << "etag(\"" << buff.substr(offset, length) << "\", " << offset << ", " << length << ")" << std::endl;
     if(etag_cdata(buff))
       return;
-    etag_basic(buff);
+    etag_basic(withoutSpace(buff));
   } // etag
 
   bool etag_cdata(const std::string& buff) 
@@ -647,20 +647,7 @@ private:
     // restart CDATA mode and process the tag as characters.
     if(CDATAElements && (stack_.flags() & Schema::F_CDATA) != 0) 
     {
-      bool realTag = (buff.length() == currentName.length());
-      if(realTag) 
-      {
-        std::string buffl = lower_case(buff);
-        std::string currentl = lower_case(currentName);
-        for (size_t i = 0; i < buffl.length(); ++i) 
-        {
-          if(buffl[i] != currentl[i]) 
-          {
-            realTag = false;
-            break;
-          } // if ...
-        } // for ...
-      } // if ...
+      bool realTag = (lower_case(withoutSpace(buff)) == lower_case(currentName));
       if(!realTag) 
       {
         contentHandler_->characters(S("</"));
@@ -1185,6 +1172,15 @@ private:
     return dst;
   } // makeName
 
+  static std::string withoutSpace(const std::string& str)
+  {
+    std::string dst;
+    for(std::string::const_iterator i = str.begin(), ie = str.end(); i != ie; ++i)
+      if(!Arabica::XML::is_space(*i))
+        dst.push_back(*i);
+    return dst;
+  } // withoutSpace
+
   static std::string lower_case(const std::string& str) 
   {
     std::string lower;
diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index fc38e59..9b93bb9 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -435,6 +435,7 @@ public:
             h.gi(outputBuffer_);
           outputBuffer_.clear();
           h.stage(outputBuffer_);
+          nextState_ = S_PCDATA;  // there is no content, even if it would have been CDATA
           break;
         case A_UNGET:
           unread(ch);
@@ -564,8 +565,9 @@ const int HTMLScanner::statetable[] = {
     S_CDATA, 0, A_SAVE, S_CDATA,
     S_CDATA, -1, A_PCDATA, S_DONE,
     S_CDATA2, '/', A_UNSAVE_PCDATA, S_ETAG,
+    S_CDATA2, '<', A_SAVE, S_CDATA2,
     S_CDATA2, 0, A_SAVE, S_CDATA,
-    S_CDATA2, -1, A_UNSAVE_PCDATA, S_DONE,
+    S_CDATA2, -1, A_PCDATA, S_DONE,
     S_CDSECT, ']', A_SAVE, S_CDSECT1,
     S_CDSECT, 0, A_SAVE, S_CDSECT,
     S_CDSECT, -1, A_SKIP, S_DONE,
@@ -613,9 +615,9 @@ const int HTMLScanner::statetable[] = {
     S_ETAG, '>', A_ETAG, S_PCDATA,
     S_ETAG, 0, A_SAVE, S_ETAG,
     S_ETAG, -1, A_ETAG, S_DONE,
-    S_ETAG, ' ', A_SKIP, S_ETAG,
-    S_ETAG, '\n', A_SKIP, S_ETAG,
-    S_ETAG, '\t', A_SKIP, S_ETAG,
+    S_ETAG, ' ', A_SAVE, S_ETAG,
+    S_ETAG, '\n', A_SAVE, S_ETAG,
+    S_ETAG, '\t', A_SAVE, S_ETAG,
     S_GI, '/', A_SKIP, S_EMPTYTAG,
     S_GI, '>', A_GI_STAGC, S_PCDATA,
     S_GI, 0, A_SAVE, S_GI,
-- 
2.43.0


From 1ceffd8cb38a9cedf9d0c6ace92489a610edfc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 079/106] fix: a reference following a bare ampersand in an
 HTML attribute

---
 include/Taggle/impl/Parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index a756619..8658b3b 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -585,8 +585,8 @@ private:
       }
       else 
       {
-        // improperly terminated ref
-        refStart = std::string::npos;
+        // improperly terminated ref, perhaps by the start of another
+        refStart = (ch == '&') ? dst.length() : std::string::npos;
       } // if ...
     } // for ...
     return std::string(dst, 0, dst.size());
-- 
2.43.0


From d6b7c87610a02237b3ddfc5eabc28239325335e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 080/106] fix: HTML element and attribute prefixes are mapped
 once

---
 include/Taggle/impl/Parser.hpp | 49 +++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 8658b3b..8523522 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -2,6 +2,7 @@
 #define ARABICA_SAX_TAGGLE_PARSER_HPP
 
 
+#include <algorithm>
 #include <map>
 #include <vector>
 #include <SAX/helpers/DefaultHandler.hpp>
@@ -729,24 +730,15 @@ private:
     std::string name = stack_.name();
     std::string localName = stack_.localName();
     std::string namespaceName = stack_.namespaceName();
-    std::string prefix = prefixOf(name);
 
     if(!namespaces) 
       namespaceName = localName = "";
     contentHandler_->endElement(S(namespaceName), 
                                 S(localName), 
                                 S(name));
-    if(foreign(prefix, namespaceName)) 
-      contentHandler_->endPrefixMapping(S(prefix));
-
-    const Attributes<std::string>& atts = stack_.atts();
-    for (int i = atts.getLength() - 1; i >= 0; i--) 
-    {
-      std::string attNamespace = atts.getURI(i);
-      std::string attPrefix = prefixOf(atts.getQName(i));
-      if(foreign(attPrefix, attNamespace)) 
-        contentHandler_->endPrefixMapping(S(attPrefix));
-    } // for ...
+    const PrefixesT prefixes = foreignPrefixes(stack_);
+    for (PrefixesT::const_reverse_iterator p = prefixes.rbegin(), pe = prefixes.rend(); p != pe; ++p)
+      contentHandler_->endPrefixMapping(S(p->first));
     stack_ = stack_.next();
   } // pop
 
@@ -769,31 +761,24 @@ private:
     std::string name = e.name();
     std::string localName = e.localName();
     std::string namespaceName = e.namespaceName();
-    std::string prefix = prefixOf(name);
 
     e.clean();
     if(!namespaces) 
       namespaceName = localName = "";
     if(virginStack && (lower_case(localName) == lower_case(doctypeName_))) 
       entityResolver_->resolveEntity(S(doctypePublicId_), S(doctypeSystemId_));
-    if(foreign(prefix, namespaceName)) 
-      contentHandler_->startPrefixMapping(S(prefix), S(namespaceName));
+    const PrefixesT prefixes = foreignPrefixes(e);
+    for (PrefixesT::const_iterator p = prefixes.begin(), pe = prefixes.end(); p != pe; ++p)
+      contentHandler_->startPrefixMapping(S(p->first), S(p->second));
     
     AttributesImpl<string_type, string_adaptor> atts;
     int len = e.atts().getLength();
     for (int i = 0; i != len; ++i) 
-    {
-      std::string attNamespace = e.atts().getURI(i);
-      std::string attPrefix = prefixOf(e.atts().getQName(i));
-      if(foreign(attPrefix, attNamespace)) 
-        contentHandler_->startPrefixMapping(S(attPrefix), S(attNamespace));
-
       atts.addAttribute(S(e.atts().getURI(i)),
                         S(e.atts().getLocalName(i)),
                         S(e.atts().getQName(i)),
                         S(e.atts().getType(i)),
                         S(e.atts().getValue(i)));
-    } // for ...
     contentHandler_->startElement(S(namespaceName), S(localName), S(name), atts);
 
     e.setNext(stack_);
@@ -813,6 +798,26 @@ private:
     return prefix;
   } // prefixOf
 
+  typedef std::vector<std::pair<std::string, std::string> > PrefixesT;
+
+  // The foreign prefixes an element and its attributes use, and their namespaces
+  PrefixesT foreignPrefixes(const Element& e)
+  {
+    PrefixesT prefixes;
+    addForeign(prefixes, e.name(), e.namespaceName());
+    for (int i = 0, len = e.atts().getLength(); i != len; ++i)
+      addForeign(prefixes, e.atts().getQName(i), e.atts().getURI(i));
+    return prefixes;
+  } // foreignPrefixes
+
+  void addForeign(PrefixesT& prefixes, const std::string& name, const std::string& namespaceName)
+  {
+    std::pair<std::string, std::string> mapping(prefixOf(name), namespaceName);
+    if(foreign(mapping.first, namespaceName) && 
+       std::find(prefixes.begin(), prefixes.end(), mapping) == prefixes.end())
+      prefixes.push_back(mapping);
+  } // addForeign
+
   // Return true if we have a foreign name
   bool foreign(std::string prefix, std::string namespaceName) 
   {
-- 
2.43.0


From c01d9e05318e790ba1c642824ebed71112803184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 081/106] fix: HTML text is not broken within a character

---
 include/Taggle/impl/html/HTMLScanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 9b93bb9..8cce083 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -493,7 +493,7 @@ private:
   {
     if (outputBuffer_.size() >= outputBuffer_.capacity() - 20) 
     {
-      if (state_ == S_PCDATA || state_ == S_CDATA) 
+      if ((state_ == S_PCDATA || state_ == S_CDATA) && (ch & 0xC0) != 0x80)   // not within a character
       {
         // Return a buffer-sized chunk of PCDATA
         h.pcdata(outputBuffer_);
-- 
2.43.0


From d1e656fe3c665e06da5ea7ad2b9aaad59e6e2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:25 +0000
Subject: [PATCH 082/106] fix: CDATA sections in HTML can end with a bracket

---
 include/Taggle/impl/html/HTMLScanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 8cce083..34f8854 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -575,6 +575,7 @@ const int HTMLScanner::statetable[] = {
     S_CDSECT1, 0, A_SAVE, S_CDSECT,
     S_CDSECT1, -1, A_SKIP, S_DONE,
     S_CDSECT2, '>', A_CDATA, S_PCDATA,
+    S_CDSECT2, ']', A_SAVE, S_CDSECT2,
     S_CDSECT2, 0, A_SAVE, S_CDSECT,
     S_CDSECT2, -1, A_SKIP, S_DONE,
     S_COM, '-', A_SKIP, S_COM2,
-- 
2.43.0


From 47183bdb9a30400779bf1cdfff9ff09f7ff549dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:51 +0000
Subject: [PATCH 083/106] fix: empty HTML tags ending with an attribute without
 a value

---
 include/Taggle/impl/html/HTMLScanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 34f8854..068923b 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -606,6 +606,7 @@ const int HTMLScanner::statetable[] = {
     S_EMPTYTAG, '\t', A_SKIP, S_TAGWS,
     S_ENT, 0, A_ENTITY, S_ENT,
     S_ENT, -1, A_ENTITY, S_DONE,
+    S_EQ, '/', A_ADUP, S_EMPTYTAG,
     S_EQ, '=', A_SKIP, S_AVAL,
     S_EQ, '>', A_ADUP_STAGC, S_PCDATA,
     S_EQ, 0, A_ADUP_SAVE, S_ANAME,
-- 
2.43.0


From d5599035eff7b31deac5b44ff73ec69742ff9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 084/106] fix: white space before the HTML root element is not
 reported

---
 include/Taggle/impl/Parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 8523522..61a41b5 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -1024,7 +1024,7 @@ private:
     } // for ...
     if(allWhite && !stack_.canContain(pcdata_)) 
     {
-      if(ignorableWhitespace) 
+      if(ignorableWhitespace && !virginStack) 
         contentHandler_->ignorableWhitespace(S(buff));
     }
     else 
-- 
2.43.0


From 77def9b6ea76fe6363f93bf828daf633d77a0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 085/106] fix: HTML elements can not have the reserved xmlns
 prefix

---
 include/Taggle/impl/Parser.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 61a41b5..d421d22 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -668,7 +668,7 @@ private:
     if(!buff.empty())
     {
       // Canonicalize case of name
-      name = makeName(buff);
+      name = makeElementName(buff);
       ElementType& type = schema_->getElementType(name);
       if(type == ElementType::Null) 
         return;  // mysterious end-tag
@@ -983,7 +983,7 @@ private:
     // std::cerr << "gi(\"" << buff.substr(offset, length) << "\", " << offset << ", " << length << ")" << std::endl;
     if(newElement_ != Element::Null) 
       return;
-    std::string name = makeName(buff);
+    std::string name = makeElementName(buff);
     if(name == "") 
       return;
     ElementType* type = &schema_->getElementType(name);
@@ -1177,6 +1177,15 @@ private:
     return dst;
   } // makeName
 
+  // The xmlns prefix is reserved, so elements can't use it
+  std::string makeElementName(const std::string& buff)
+  {
+    std::string name = makeName(buff);
+    if(prefixOf(name) == "xmlns")
+      name[5] = '_';
+    return name;
+  } // makeElementName
+
   static std::string withoutSpace(const std::string& str)
   {
     std::string dst;
-- 
2.43.0


From 8b6b5ec22c49cf34f985ecde8bca36269049c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 086/106] fix: a public identifier in a document type
 declaration needs a system identifier

---
 include/SAX/filter/Writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index dda1250..83afa42 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -481,7 +481,7 @@ void Writer<string_type, string_adaptor>::startDTD(const string_type& name, cons
            << UnicodeT::SPACE
            << name;
 
-  publicAndSystem(publicId, systemId);
+  publicAndSystem(publicId, systemId, !publicId.empty());
 
   *stream_ << UnicodeT::SPACE
            << UnicodeT::LEFT_SQUARE_BRACKET
-- 
2.43.0


From 086087194b6b0bba4380356bbcfb97dd0ab60893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:37 +0000
Subject: [PATCH 087/106] fix: HTML elements using the prefix of HTML itself
 are in the HTML namespace

---
 include/Taggle/impl/ElementType.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Taggle/impl/ElementType.hpp b/include/Taggle/impl/ElementType.hpp
index cff6e68..99418be 100755
--- a/include/Taggle/impl/ElementType.hpp
+++ b/include/Taggle/impl/ElementType.hpp
@@ -110,6 +110,8 @@ public:
 		std::string prefix = name.substr(0, colon);
 		if (prefix == "xml") 
 			return "http://www.w3.org/XML/1998/namespace";
+		else if (prefix == schema_->getPrefix())
+			return schema_->getURI();
 		else 
 			return "urn:x-prefix:" + prefix;
   } // namespaceName
-- 
2.43.0


From 0e93875ab19cc445984a6250ca302a593d5858cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:10 +0000
Subject: [PATCH 088/106] fix: XPath execution contexts use their own string
 type's adaptor by default

---
 include/XPath/impl/xpath_execution_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_execution_context.hpp b/include/XPath/impl/xpath_execution_context.hpp
index 47c25c7..616b4c0 100644
--- a/include/XPath/impl/xpath_execution_context.hpp
+++ b/include/XPath/impl/xpath_execution_context.hpp
@@ -10,7 +10,7 @@ namespace Arabica
 namespace XPath
 {
  
-template<class string_type, class string_adaptor = default_string_adaptor<std::string> >
+template<class string_type, class string_adaptor = default_string_adaptor<string_type> >
 class ExecutionContext
 {
 public:
-- 
2.43.0


From a0de448a99bc8df60d0e2ba41bb9384aa1ca3bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:01 +0000
Subject: [PATCH 089/106] fix: the HTML parser handles strings through their
 adaptor only

---
 include/Taggle/impl/Parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index d421d22..0f956de 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -959,7 +959,7 @@ private:
     bool suppressSpace = true;
     for(std::string::const_iterator i = src.begin(), ie = src.end(); i != ie; ++i)
     {
-      if(legal.find(*i) != std::string::npos) 
+      if(string_adaptor::find(legal, *i) != string_adaptor::npos()) 
       {   
         // legal but not whitespace
         dst.push_back(*i);
-- 
2.43.0


From f80cac8784774aa739c65e1021cf420624a47dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:55 +0000
Subject: [PATCH 090/106] fix: Xerces is initialised once when parsers are
 created in several threads

---
 src/SAX/wrappers/saxxerces.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SAX/wrappers/saxxerces.cpp b/src/SAX/wrappers/saxxerces.cpp
index 3e9eecf..e7a6820 100644
--- a/src/SAX/wrappers/saxxerces.cpp
+++ b/src/SAX/wrappers/saxxerces.cpp
@@ -7,6 +7,7 @@
 
 #include <SAX/ParserConfig.hpp>
 #include <SAX/wrappers/saxxerces.hpp>
+#include <mutex>
 
 namespace Arabica
 {
@@ -15,8 +16,12 @@ namespace SAX
 
 namespace XercesImpl
 {
+  // count_ is shared by the parsers of every thread
+  static std::mutex countMutex;
+
   void xerces_initializer::doInitialize()
   {
+    std::lock_guard<std::mutex> lock(countMutex);
 	  if(!count_)
       XERCES_CPP_NAMESPACE::XMLPlatformUtils::Initialize();
 	  ++count_;
@@ -24,6 +29,7 @@ namespace XercesImpl
 
   void xerces_initializer::doTerminate()
   {
+    std::lock_guard<std::mutex> lock(countMutex);
 	  --count_;
 	  if (!count_)
       XERCES_CPP_NAMESPACE::XMLPlatformUtils::Terminate();
-- 
2.43.0


From 45807f4d3f05f1409903061329ecc2d2bb459e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:56 +0000
Subject: [PATCH 091/106] fix: the reference count of the null element HTML
 parsers share is atomic

---
 include/Taggle/impl/Element.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Taggle/impl/Element.hpp b/include/Taggle/impl/Element.hpp
index a0b85c3..8f810c1 100755
--- a/include/Taggle/impl/Element.hpp
+++ b/include/Taggle/impl/Element.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_SAX_TAGSOUP_ELEMENT_HPP
 #define ARABICA_SAX_TAGSOUP_ELEMENT_HPP
 
+#include <atomic>
 #include <set>
 #include <string>
 #include <SAX/helpers/AttributesImpl.hpp>
@@ -172,7 +173,7 @@ private:
   std::set<std::string> specified_;		// names of the attributes given in the document
   Element next_;		// successor of element
   bool preclosed_;		// this element has been preclosed
-  int refCount_;
+  std::atomic<int> refCount_; // Element::Null is shared by all parsers
 
 public:
   /**
@@ -256,8 +257,7 @@ public:
 
   void remove_ref() 
   {
-    --refCount_;
-    if(refCount_ == 0)
+    if(--refCount_ == 0)
       delete this;
   } // remove_ref
 
-- 
2.43.0


From 34aace5bd7ab5da9f1cf50ef4816e7dd297f0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:56 +0000
Subject: [PATCH 092/106] fix: XPath expressions can be compiled in several
 threads

---
 include/XPath/impl/xpath_ast.hpp     | 6 ++++++
 include/XPath/impl/xpath_grammar.hpp | 6 ++++--
 include/XPath/impl/xpath_parser.hpp  | 6 ++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_ast.hpp b/include/XPath/impl/xpath_ast.hpp
index 3211537..d7b260d 100644
--- a/include/XPath/impl/xpath_ast.hpp
+++ b/include/XPath/impl/xpath_ast.hpp
@@ -2,6 +2,12 @@
 #define ARABICA_XPATHIC_XPATH_AST_HPP
 
 
+// The grammars are stateless, so one instance of each serves every parser in every thread
+// (BOOST_SPIRIT_THREADSAFE would do, but needs Boost.Thread)
+#ifndef BOOST_SPIRIT_SINGLE_GRAMMAR_INSTANCE
+#define BOOST_SPIRIT_SINGLE_GRAMMAR_INSTANCE
+#endif
+
 #include <boost/version.hpp>
 
 #if BOOST_VERSION >= 103800
diff --git a/include/XPath/impl/xpath_grammar.hpp b/include/XPath/impl/xpath_grammar.hpp
index d71c3a4..7c7cbbc 100644
--- a/include/XPath/impl/xpath_grammar.hpp
+++ b/include/XPath/impl/xpath_grammar.hpp
@@ -1,8 +1,10 @@
 #ifndef ARABICA_XPATHIC_XPATH_GRAMMER_HPP
 #define ARABICA_XPATHIC_XPATH_GRAMMER_HPP
 
-#ifndef BOOST_SPIRIT_THREADSAFE
-#define BOOST_SPIRIT_THREADSAFE
+// The grammars are stateless, so one instance of each serves every parser in every thread
+// (BOOST_SPIRIT_THREADSAFE would do, but needs Boost.Thread)
+#ifndef BOOST_SPIRIT_SINGLE_GRAMMAR_INSTANCE
+#define BOOST_SPIRIT_SINGLE_GRAMMAR_INSTANCE
 #endif
 
 #include <boost/version.hpp>
diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 8abe03b..a5803eb 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -1,6 +1,12 @@
 #ifndef ARABICA_XPATHIC_XPATH_PARSER_HPP
 #define ARABICA_XPATHIC_XPATH_PARSER_HPP
 
+// The grammars are stateless, so one instance of each serves every parser in every thread
+// (BOOST_SPIRIT_THREADSAFE would do, but needs Boost.Thread)
+#ifndef BOOST_SPIRIT_SINGLE_GRAMMAR_INSTANCE
+#define BOOST_SPIRIT_SINGLE_GRAMMAR_INSTANCE
+#endif
+
 #include <boost/version.hpp>
 
 #if BOOST_VERSION >= 103800
-- 
2.43.0


From da508f4960ef8c95a10975680c3c585e7656e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:56 +0000
Subject: [PATCH 093/106] fix: libxml2 element declarations report EMPTY and
 mixed content models

---
 include/SAX/wrappers/saxlibxml2.hpp | 60 ++++++++++++-----------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 61e2fce..1078107 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -201,6 +201,7 @@ class libxml2_wrapper :
     virtual void SAXunparsedEntityDecl(const xmlChar *name, const xmlChar *publicId, const xmlChar *systemId, const xmlChar *notationName);
     virtual void SAXelementDecl(const xmlChar* name, int type, xmlElementContentPtr content);
     void convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model, bool isChild) const;
+    static bool isGroup(xmlElementContentPtr model) { return model->type == XML_ELEMENT_CONTENT_SEQ || model->type == XML_ELEMENT_CONTENT_OR; }
     virtual void SAXattributeDecl(const xmlChar *elem, const xmlChar *fullname, int type, int def, const xmlChar *defaultValue, xmlEnumerationPtr tree);
     string_type stringAttrEnum(xmlEnumerationPtr tree, bool leadingSpace) const;
     virtual void SAXentityDecl(const xmlChar *name, int type, const xmlChar *publicId, const xmlChar *systemId,	xmlChar *content);
@@ -741,59 +742,48 @@ void libxml2_wrapper<string_type, T0, T1>::SAXelementDecl(const xmlChar* name, i
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model, bool isChild) const
 {
-  char concatenator = ' ';
-
   switch(type)
   {
     case XML_ELEMENT_TYPE_EMPTY:
       os << "EMPTY";
-      break;
+      return;
     case XML_ELEMENT_TYPE_ANY:
       os << "ANY";
       return;
-    case XML_ELEMENT_TYPE_MIXED:
-      if(model->c1 == 0)
-        os << "(#PCDATA)";
-      else
-        os << "(#PCDATA";
-      concatenator = '|';
-      break;
-    case XML_ELEMENT_TYPE_ELEMENT:
-      break;
   } // switch
 
+  // the whole model has parentheses of its own
+  if(!isChild)
+    os << '(';
+
   switch(model->type)
   {
+    case XML_ELEMENT_CONTENT_PCDATA:
+      os << "#PCDATA";
+      break;
     case XML_ELEMENT_CONTENT_ELEMENT:
-      if(!isChild)
-        os << '(' << model->name << ')';
-      else
-        os << model->name;
+      if(model->prefix)
+        os << model->prefix << ':';
+      os << model->name;
       break;
     case XML_ELEMENT_CONTENT_SEQ:
-      concatenator = ',';
-      break;
     case XML_ELEMENT_CONTENT_OR:
-      concatenator = '|';
-      break;
-    case XML_ELEMENT_CONTENT_PCDATA:
+      // (a, b, c) is held as (a, (b, c)) 
+      for(xmlElementContentPtr c = model; ; c = c->c2)
+      {
+        convertXML_Content(os, type, c->c1, !isGroup(c->c1));
+        os << (model->type == XML_ELEMENT_CONTENT_SEQ ? ',' : '|');
+        if(c->c2->type != model->type || c->c2->ocur != XML_ELEMENT_CONTENT_ONCE)
+        {
+          convertXML_Content(os, type, c->c2, !isGroup(c->c2));
+          break;
+        } // if ...
+      } // for ...
       break;
   } // switch
 
-  // do children here
-  if(model->c1 != 0)
-  {
-    if(!isChild)
-      os << '(';
-    convertXML_Content(os, XML_ELEMENT_TYPE_ELEMENT, model->c1, true);
-    if(model->c2 != 0)
-    {
-      os << concatenator;
-      convertXML_Content(os, XML_ELEMENT_TYPE_ELEMENT, model->c2, true);
-    } // if ...
-    if(!isChild)
-      os << ')';
-  } // if ...
+  if(!isChild)
+    os << ')';
 
   switch(model->ocur)
   {
-- 
2.43.0


From 80aaa77f274e121e0442593e8451187fab698089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 094/106] fix: evaluating an expression without a variable
 resolver reports unbound variables

---
 include/XPath/impl/xpath_execution_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/XPath/impl/xpath_execution_context.hpp b/include/XPath/impl/xpath_execution_context.hpp
index 616b4c0..6abc2c9 100644
--- a/include/XPath/impl/xpath_execution_context.hpp
+++ b/include/XPath/impl/xpath_execution_context.hpp
@@ -18,6 +18,7 @@ public:
       position_(-1), 
       last_(-1)
   { 
+    variableResolver_.set(VariableResolverPtr<string_type, string_adaptor>(new NullVariableResolver<string_type, string_adaptor>()));
   } // ExecutionContext
 
   ExecutionContext(size_t last, const ExecutionContext<string_type, string_adaptor>& parent) : 
-- 
2.43.0


From f92532ca4b885d69d964b399e169d369f2a3c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 095/106] fix: socket streams keep put back characters without
 overlapping copies or empty buffers

---
 include/io/socket_stream.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/io/socket_stream.hpp b/include/io/socket_stream.hpp
index 8cbb8e9..1265db1 100644
--- a/include/io/socket_stream.hpp
+++ b/include/io/socket_stream.hpp
@@ -269,6 +269,9 @@ template<class charT, class traitsT>
 bool basic_socketbuf<charT, traitsT>::writeSocket()
 {
   // write to the socket
+  if(outBuffer_.empty())
+    return true;
+
   charT* from_next = &(outBuffer_[0]);
   size_t length = pptr() - from_next;
   if(!length)
@@ -298,9 +301,10 @@ int basic_socketbuf<charT, traitsT>::readSocket()
 
   size_t pbCount = std::min<size_t>(gptr() - eback(), pbSize_);
 
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT), 
-         gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  if(pbCount)
+    memmove(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT), 
+            gptr() - pbCount*sizeof(charT),
+            pbCount*sizeof(charT));
 
   int res = recv(sock_, &(inBuffer_[0]) + pbSize_, static_cast<int>(inBuffer_.capacity() - pbSize_), 0);
   if(res == 0)
-- 
2.43.0


From 76bb8d5ad3675a0fa003f41208579b1ba2e811cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:52 +0000
Subject: [PATCH 096/106] fix: closing a socket stream sends what has been
 written to it

---
 include/io/socket_stream.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/io/socket_stream.hpp b/include/io/socket_stream.hpp
index 1265db1..0c3f8be 100644
--- a/include/io/socket_stream.hpp
+++ b/include/io/socket_stream.hpp
@@ -198,13 +198,19 @@ basic_socketbuf<charT, traitsT>* basic_socketbuf<charT, traitsT>::close()
   if(!is_open())
     return 0;
 
+  // send what is still waiting, and forget it if it can't be sent - it
+  // is of no interest to whatever we're next connected to
+  bool written = writeSocket();
+  std::vector<charT>().swap(outBuffer_);
+  setp(0, 0);
+
   if(closeSocket(sock_) == SOCKET_ERROR)
     return 0;
 
   sock_ = INVALID_SOCKET;
   setg(0,0,0);
 
-  return this;
+  return written ? this : 0;
 } // close;
 
 template<class charT, class traitsT>
-- 
2.43.0


From 3528526a55af303811e86b4ce0c4688d04310856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:31 +0000
Subject: [PATCH 097/106] fix: writing to a socket stream whose peer has gone
 fails without raising SIGPIPE

---
 include/io/socket_stream.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/io/socket_stream.hpp b/include/io/socket_stream.hpp
index 0c3f8be..cb46b81 100644
--- a/include/io/socket_stream.hpp
+++ b/include/io/socket_stream.hpp
@@ -283,7 +283,14 @@ bool basic_socketbuf<charT, traitsT>::writeSocket()
   if(!length)
     return true;
 
-  bool ok = (send(sock_, from_next, static_cast<int>(length), 0) != SOCKET_ERROR);
+  // if there's no longer anyone to write to, that's an error on this
+  // stream and not a signal to everyone
+#ifdef MSG_NOSIGNAL
+  const int sendFlags = MSG_NOSIGNAL;
+#else
+  const int sendFlags = 0;
+#endif
+  bool ok = (send(sock_, from_next, static_cast<int>(length), sendFlags) != SOCKET_ERROR);
 
   if(ok)
     setp(from_next, from_next + outBuffer_.capacity());
-- 
2.43.0


From b7e31752d314e69e0c2f28ee3ec1c5cb81ba72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:13 +0000
Subject: [PATCH 098/106] fix: a URI which can't be fetched is not a local file
 of the same path

---
 src/SAX/helpers/InputSourceResolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SAX/helpers/InputSourceResolver.cpp b/src/SAX/helpers/InputSourceResolver.cpp
index 5cc3987..acdfd7e 100644
--- a/src/SAX/helpers/InputSourceResolver.cpp
+++ b/src/SAX/helpers/InputSourceResolver.cpp
@@ -38,6 +38,8 @@ void InputSourceResolver::open(const std::string& /* publicId */,
         deleteStream_ = true;
         return;
       } // if ...
+      if(url.scheme() != "file")
+        return; // somewhere else's file is not one of ours
     } // if ...
 
     // try and open it as a file
-- 
2.43.0


From f2c024a707b19091ba2406239705a46a5e5efaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:13 +0000
Subject: [PATCH 099/106] fix: HTTP request lines end with carriage return and
 line feed

---
 src/SAX/helpers/InputSourceResolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SAX/helpers/InputSourceResolver.cpp b/src/SAX/helpers/InputSourceResolver.cpp
index acdfd7e..9e8e162 100644
--- a/src/SAX/helpers/InputSourceResolver.cpp
+++ b/src/SAX/helpers/InputSourceResolver.cpp
@@ -132,10 +132,10 @@ namespace
       delete ifs;
       return 0;
     } // if ...
-    *ifs << "GET " << url.path() << " HTTP/1.0" << std::endl;
-    *ifs << "Host: " << url.host() << std::endl;
-    *ifs << "Connection: close" << std::endl;
-    *ifs << std::endl;
+    *ifs << "GET " << url.path() << " HTTP/1.0\r\n";
+    *ifs << "Host: " << url.host() << "\r\n";
+    *ifs << "Connection: close\r\n";
+    *ifs << "\r\n" << std::flush;
 
     std::string header;
     while(std::getline(*ifs, header) && !header.empty() && (header[0] != '\r'))
-- 
2.43.0


From 081bb61807e4196336a6ffc6046d4faa4107f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:13 +0000
Subject: [PATCH 100/106] fix: the body of an HTTP error response is not the
 document asked for

---
 src/SAX/helpers/InputSourceResolver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/SAX/helpers/InputSourceResolver.cpp b/src/SAX/helpers/InputSourceResolver.cpp
index 9e8e162..98411dc 100644
--- a/src/SAX/helpers/InputSourceResolver.cpp
+++ b/src/SAX/helpers/InputSourceResolver.cpp
@@ -137,6 +137,16 @@ namespace
     *ifs << "Connection: close\r\n";
     *ifs << "\r\n" << std::flush;
 
+    std::string status;
+    std::getline(*ifs, status);
+    const std::string::size_type code = status.find(' ');
+    if((status.compare(0, 5, "HTTP/") != 0) || (code == std::string::npos) || (status[code+1] != '2'))
+    {
+      // whatever this is, it's not the document
+      delete ifs;
+      return 0;
+    } // if ...
+
     std::string header;
     while(std::getline(*ifs, header) && !header.empty() && (header[0] != '\r'))
       ; // skip the headers
-- 
2.43.0


From 482311d4c1571a005ac6071a5a3c4c14ca6f8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:29 +0000
Subject: [PATCH 101/106] fix: the HTTP request target is never empty, has no
 fragment, and the host goes with its port

---
 src/SAX/helpers/InputSourceResolver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SAX/helpers/InputSourceResolver.cpp b/src/SAX/helpers/InputSourceResolver.cpp
index 98411dc..53eb9a1 100644
--- a/src/SAX/helpers/InputSourceResolver.cpp
+++ b/src/SAX/helpers/InputSourceResolver.cpp
@@ -132,8 +132,11 @@ namespace
       delete ifs;
       return 0;
     } // if ...
-    *ifs << "GET " << url.path() << " HTTP/1.0\r\n";
-    *ifs << "Host: " << url.host() << "\r\n";
+    std::string target = url.path().substr(0, url.path().find('#')); // fragments aren't the server's business
+    if(target.empty() || (target[0] != '/'))
+      target.insert(0, "/");
+    *ifs << "GET " << target << " HTTP/1.0\r\n";
+    *ifs << "Host: " << url.host() << ((url.port() != "80") ? ":" + url.port() : "") << "\r\n";
     *ifs << "Connection: close\r\n";
     *ifs << "\r\n" << std::flush;
 
-- 
2.43.0


From ade687f42025e60551377bcb3e34dc1028a78fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:48 +0000
Subject: [PATCH 102/106] fix: an attribute declared with an empty default
 value has a default

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 709988f..6179acb 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -4,6 +4,7 @@
 #include <SAX/XMLReader.hpp>
 #include <SAX/helpers/DefaultHandler.hpp>
 #include <SAX/helpers/AttributeTypes.hpp>
+#include <SAX/helpers/AttributeDefaults.hpp>
 #include <SAX/filter/TextCoalescer.hpp>
 #include <DOM/Simple/DOMImplementation.hpp>
 #include <DOM/Simple/NotationImpl.hpp>
@@ -188,6 +189,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     EntityResolverT* entityResolver_;
     ErrorHandlerT* errorHandler_;
     Arabica::SAX::AttributeTypes<stringT, string_adaptorT> attributeTypes_;
+    Arabica::SAX::AttributeDefaults<stringT, string_adaptorT> attributeDefaults_;
 
   protected:
     void setParserFeatures(XMLReaderInterfaceT& parser) const
@@ -392,14 +394,14 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     virtual void attributeDecl(const stringT& elementName,
                                const stringT& attributeName,
                                const stringT& type,
-                               const stringT& /*valueDefault*/,
+                               const stringT& valueDefault,
                                const stringT& value)
     {
       if(!documentType_)
         return;
       if(!declaredAttributes_.insert(std::make_pair(elementName, attributeName)).second)
         return; // the first declaration is the binding one
-      if(!string_adaptorT::empty(value))
+      if(!(valueDefault == attributeDefaults_.implied) && !(valueDefault == attributeDefaults_.required))
         documentType_->addDefaultAttr(elementName, attributeName, value);
       if(type == attributeTypes_.id)
         documentType_->addElementId(elementName, attributeName);
-- 
2.43.0


From 901bf1468da8eb079554148e71112145e6510177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:48 +0000
Subject: [PATCH 103/106] fix: a namespace-qualified attribute takes the place
 of the default of its name, and gives it back when removed

---
 include/DOM/Simple/AttrMap.hpp | 52 ++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 1a504df..25a7ac6 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -50,14 +50,14 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
       DOMNode_implT* n = NamedNodeMapImplT::removeNamedItem(name);
-      createDefault(name);
+      createDefault(n);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
       DOMNode_implT* n = NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName);
-      createDefault(namespaceURI, localName);
+      createDefault(n);
       return n;
     } // removedNamedItemNS   
       
@@ -103,10 +103,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
       NamedNodeMapImplT::removeItem(dynamic_cast<AttrImplT*>(oldAttr));
-      if(string_adaptorT::empty(oldAttr->getLocalName()))
-        createDefault(oldAttr->getNodeName());
-      else
-        createDefault(oldAttr->getNamespaceURI(), oldAttr->getLocalName());
+      createDefault(oldAttr);
       return oldAttr;
     } // removeAttributeNode
 
@@ -133,9 +130,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return;
       } // if ...
       a->setValue(value);
-      AttrImplT* defaulted = dynamic_cast<AttrImplT*>(NamedNodeMapImplT::getNamedItem(qualifiedName));
-      if(defaulted && !defaulted->getSpecified() && string_adaptorT::empty(defaulted->getLocalName()))
-        NamedNodeMapImplT::removeItem(defaulted);
+      dropDefault(qualifiedName);
       NamedNodeMapImplT::setNamedItemNS(a);
       a->setOwnerElement(ownerElement_);
     } // setAttributeNS
@@ -162,6 +157,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
       checkNotInUse(attr);
+      NamedNodeMapImplT::checkOwnerDocument(newAttr);
+      dropDefault(attr->getNodeName());
       DOMNode_implT* replaced = NamedNodeMapImplT::setNamedItemNS(newAttr);
       attr->setOwnerElement(ownerElement_);
       return dynamic_cast<DOMAttr_implT*>(replaced);
@@ -190,27 +187,34 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     } // setOwnerDoc
 
   private:
-    void createDefault(const stringT& name) 
+    // the default of an attribute that has been removed, with the removed attribute's namespace
+    void createDefault(DOMNode_implT* removed) 
     {
       DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-      if(attrs)
+      DOMNode_implT* attr = attrs ? attrs->getNamedItem(removed->getNodeName()) : 0;
+      if(!attr || hasAttribute(removed->getNodeName()))
+        return;
+      if(string_adaptorT::empty(removed->getLocalName()))
       {
-        DOMNode_implT* attr = attrs->getNamedItem(name);
-        if(attr)
-          setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
-      }
+        setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
+        return;
+      } // if ...
+      AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
+                                       removed->getNamespaceURI(), 
+                                       removed->hasNamespaceURI(), 
+                                       removed->getNodeName());
+      a->setValue(attr->getNodeValue());
+      a->setSpecified(false);
+      setAttributeNodeNS(a);
     } // createDefault
 
-    void createDefault(const stringT& namespaceURI, const stringT& localName) 
+    // a default without a namespace gives way to the namespace-qualified attribute of its name
+    void dropDefault(const stringT& name)
     {
-      DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-      if(attrs)
-      {
-        DOMNode_implT* attr = attrs->getNamedItemNS(namespaceURI, localName);
-        if(attr && !hasAttribute(attr->getNodeName()))
-          setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
-      } 
-    } // createDefault
+      AttrImplT* defaulted = dynamic_cast<AttrImplT*>(NamedNodeMapImplT::getNamedItem(name));
+      if(defaulted && !defaulted->getSpecified() && string_adaptorT::empty(defaulted->getLocalName()))
+        NamedNodeMapImplT::removeItem(defaulted);
+    } // dropDefault
 
     void getDefaults()
     {
-- 
2.43.0


From 12e4a57a6f619fa37a7393c4ba7df79d30081205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:48 +0000
Subject: [PATCH 104/106] fix: a default attribute in no namespace can be found
 with the namespace methods

---
 include/DOM/SAX2DOM/DocumentTypeImpl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
index a50d420..07cab7a 100644
--- a/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
+++ b/include/DOM/SAX2DOM/DocumentTypeImpl.hpp
@@ -47,7 +47,14 @@ class DocumentType : public Arabica::SimpleDOM::DocumentTypeImpl<stringT, string
         addElement(elementName);
         elem = dynamic_cast<Arabica::SimpleDOM::ElementImpl<stringT, string_adaptorT>*>(BaseDT::getElements()->getNamedItem(elementName));
       }
-      Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>* attr = new Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, attributeName);
+      static const stringT XMLNS = string_adaptorT::construct_from_utf8("xmlns");
+      static const stringT COLON = string_adaptorT::construct_from_utf8(":");
+
+      Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>* attr = 0;
+      if(attributeName == XMLNS || string_adaptorT::find(attributeName, COLON) != string_adaptorT::npos())
+        attr = new Arabica::SimpleDOM::AttrImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, attributeName);
+      else // in no namespace, and so reachable through the namespace methods
+        attr = new Arabica::SimpleDOM::AttrNSImpl<stringT, string_adaptorT>(BaseDT::ownerDoc_, string_adaptorT::construct_from_utf8(""), false, attributeName);
       attr->setValue(attributeValue);
       attr->setSpecified(false);
       elem->setAttributeNode(attr);
-- 
2.43.0


From 13825914a4d15bbe8a2a46c5c05a2c51cddc0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:03 +0000
Subject: [PATCH 105/106] fix: the clone of an attribute is specified

---
 include/DOM/Simple/AttrImpl.hpp   |  1 -
 include/DOM/Simple/AttrMap.hpp    | 11 +++++++++--
 include/DOM/Simple/AttrNSImpl.hpp |  1 -
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index e404983..6a2c5ee 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -77,7 +77,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     {
       AttrImpl* a = dynamic_cast<AttrImpl*>(NodeT::ownerDoc_->createAttribute(*name_));
       cloneChildren(a);
-      a->setSpecified(getSpecified());
       return a;
     } // cloneNode
 
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 25a7ac6..a1e3913 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -187,6 +187,13 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     } // setOwnerDoc
 
   private:
+    void setDefault(DOMNode_implT* exemplar)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(exemplar->cloneNode(true)); // which is a specified attribute
+      attr->setSpecified(false);
+      setAttributeNode(attr);
+    } // setDefault
+
     // the default of an attribute that has been removed, with the removed attribute's namespace
     void createDefault(DOMNode_implT* removed) 
     {
@@ -196,7 +203,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return;
       if(string_adaptorT::empty(removed->getLocalName()))
       {
-        setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
+        setDefault(attr);
         return;
       } // if ...
       AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
@@ -225,7 +232,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         {
           DOMNode_implT* attr = attrs->item(i);
           if(getAttributeNode(attr->getNodeName()) == 0)
-            setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
+            setDefault(attr);
         }
       } 
     } // getDefaults
diff --git a/include/DOM/Simple/AttrNSImpl.hpp b/include/DOM/Simple/AttrNSImpl.hpp
index 023b228..8d0efcb 100644
--- a/include/DOM/Simple/AttrNSImpl.hpp
+++ b/include/DOM/Simple/AttrNSImpl.hpp
@@ -63,7 +63,6 @@ class AttrNSImpl : public AttrImpl<stringT, string_adaptorT>
     {
       AttrNSImpl* clone = dynamic_cast<AttrNSImpl*>(AttrImplT::ownerDoc_->createAttributeNS(*namespaceURI_, *AttrImplT::name_));
       AttrImplT::cloneChildren(clone);
-      clone->setSpecified(AttrImplT::getSpecified());
       return clone;
     } // cloneNode
 
-- 
2.43.0


From 8062fae55fb180355a7d200c94f28c0f00699a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:26 +0000
Subject: [PATCH 106/106] fix: the external subset is not asked for after a
 handler has thrown

---
 src/SAX/wrappers/saxexpat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index c143b09..cf6e221 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -148,7 +148,7 @@ int ewim_externalEntityRefHandler(XML_Parser parser,
                                   const XML_Char* publicId)
 {
   expat2base* p = reinterpret_cast<expat2base*>(XML_GetUserData(parser));
-  try { return p->externalEntityRefHandler(parser, context, base, systemId, publicId); }
+  try { if(!p->hasCaught()) return p->externalEntityRefHandler(parser, context, base, systemId, publicId); }
   catch(...) { p->caught(); }
   return 0;
 } // externalEntityRefHandler
-- 
2.43.0

