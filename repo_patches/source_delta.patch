From 2d2f5dd27bcdccb590e7f9173493a84b319d4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 01/41] fix: distinct rules must not share a hash key

Values were joined with a comma, so ["a,b"] and ["a", "b"] collided and
the second rule was silently dropped.
---
 util/util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 74f217b..93b3640 100644
--- a/util/util.go
+++ b/util/util.go
@@ -3,6 +3,7 @@ package util
 import (
 	"errors"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -26,6 +27,14 @@ func FileExists(path string) (bool, error) {
 	return false, err
 }
 
+// Hash returns a key that is unique for every list of values.
+// The values are length-prefixed, because they can contain any separator.
 func Hash(rule []string) string {
-	return strings.Join(rule, DefaultSep)
+	var sb strings.Builder
+	for _, value := range rule {
+		sb.WriteString(strconv.Itoa(len(value)))
+		sb.WriteByte(':')
+		sb.WriteString(value)
+	}
+	return sb.String()
 }
-- 
2.43.0


From 9b66563ffd6699d9aadb6a47fb2eef0d81f0ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 02/41] fix: matchers with more than two alternatives must not
 panic

The children of a matcher node had exactly two slots, so a || b || c
indexed out of range.
---
 model/matcher/matcher.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 47622fe..2522182 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -33,18 +33,30 @@ type MatcherNode struct {
 func NewMatcherNode(rule []string) *MatcherNode {
 	node := &MatcherNode{}
 	node.rule = rule
-	node.children = make([]map[string]*MatcherNode, 2)
-	node.children[0] = make(map[string]*MatcherNode)
-	node.children[1] = make(map[string]*MatcherNode)
 	return node
 }
 
+// Children returns the child nodes, which belong to the i-th alternative
+func (n *MatcherNode) Children(i int) map[string]*MatcherNode {
+	if i < len(n.children) {
+		return n.children[i]
+	}
+	return nil
+}
+
+func (n *MatcherNode) set(i int, key string, node *MatcherNode) {
+	for len(n.children) <= i {
+		n.children = append(n.children, make(map[string]*MatcherNode))
+	}
+	n.children[i][key] = node
+}
+
 func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode {
-	if node, ok := n.children[i][key]; ok {
+	if node, ok := n.Children(i)[key]; ok {
 		return node
 	}
 	node := NewMatcherNode(rule)
-	n.children[i][key] = node
+	n.set(i, key, node)
 	return node
 }
 
@@ -135,7 +147,7 @@ func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node
 			nextNode := node.GetOrCreate(i, key, rule)
 			m.addRuleHelper(rule, nextExpr, nextNode)
 		} else {
-			node.children[i][key] = NewMatcherNode(rule)
+			node.set(i, key, NewMatcherNode(rule))
 		}
 	}
 
@@ -158,11 +170,11 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		}
 
 		if !nextExpr.IsLeafNode() {
-			if nextNode, ok := node.children[i][key]; ok {
+			if nextNode, ok := node.Children(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
 			}
 		} else {
-			delete(node.children[i], key)
+			delete(node.Children(i), key)
 		}
 	}
 }
@@ -198,7 +210,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
-		cont, err := m.rangeMatches(nextExpr, node.children[i], params, functions, func(nextNode *MatcherNode) bool {
+		cont, err := m.rangeMatches(nextExpr, node.Children(i), params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
-- 
2.43.0


From be6122433ed950021808dd5cb1bcc1c49400e967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 03/41] fix: a removed rule must not keep matching

Removing the last rule below an inner matcher node left the node in place.
Its empty child map was then evaluated against the empty rule, so a request
could still be allowed by a rule that no longer exists.
---
 model/matcher/matcher.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 2522182..cdc037d 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -60,6 +60,16 @@ func (n *MatcherNode) GetOrCreate(i int, key string, rule []string) *MatcherNode
 	return node
 }
 
+// isEmpty reports whether the node has no child nodes left
+func (n *MatcherNode) isEmpty() bool {
+	for _, nodes := range n.children {
+		if len(nodes) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 type MatchParameters struct {
 	pDef  defs.PolicyDef
 	pvals []string
@@ -172,6 +182,9 @@ func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, n
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.Children(i)[key]; ok {
 				m.removeRuleHelper(rule, nextExpr, nextNode)
+				if nextNode.isEmpty() {
+					delete(node.Children(i), key)
+				}
 			}
 		} else {
 			delete(node.Children(i), key)
-- 
2.43.0


From 44e2bd7183da8ff6a0ac818dcceb6e59ef37fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 04/41] fix: rules must not share a matcher node they do not
 agree on

Rules were grouped by the policy values named in a stage. A stage with eval()
can use any value of the rule, and rules with missing values were all grouped
together, so one rule was decided with the values of another one.
---
 model/defs/defs.go        |  1 +
 model/defs/matcher_def.go |  6 ++++++
 model/matcher/matcher.go  | 34 ++++++++++++++++------------------
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 67ee870..6d4340e 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -30,6 +30,7 @@ const DefaultRoleParty = "_"
 var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
 var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
 var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
+var evalReg = regexp.MustCompile(`\beval\b`)
 
 type IDef interface {
 	String() string
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 09494fa..2f746aa 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -49,6 +49,12 @@ func (stage *MatcherStage) RecursiveRequestArgs() []string {
 	return res
 }
 
+// HasEval reports whether the stage evaluates an expression, which is part of a rule.
+// Such a stage can depend on every value of the rule.
+func (stage *MatcherStage) HasEval() bool {
+	return evalReg.MatchString(stage.expr)
+}
+
 func (stage *MatcherStage) Children() []*MatcherStage {
 	return stage.children
 }
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index cdc037d..7d9441a 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -137,21 +137,27 @@ func (m *Matcher) GetPolicyKey() string {
 	return m.pDef.GetKey()
 }
 
+// nodeKey returns the key of the node, which stores rule.
+// Rules share a node, only if the stage can not tell them apart.
+func (m *Matcher) nodeKey(rule []string, stage *defs.MatcherStage) string {
+	pArgs := stage.GetPolicyArgs()
+	if len(pArgs) == 0 || stage.IsLeafNode() || stage.HasEval() {
+		return util.Hash(rule)
+	}
+	values, err := m.pDef.GetParameters(rule, pArgs)
+	if err != nil {
+		return util.Hash(rule)
+	}
+	return util.Hash(values)
+}
+
 func (m *Matcher) addRule(rule []string) {
 	m.addRuleHelper(rule, m.exprRoot, m.root)
 }
 
 func (m *Matcher) addRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.nodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			nextNode := node.GetOrCreate(i, key, rule)
@@ -169,15 +175,7 @@ func (m *Matcher) removeRule(rule []string) {
 
 func (m *Matcher) removeRuleHelper(rule []string, exprNode *defs.MatcherStage, node *MatcherNode) {
 	for i, nextExpr := range exprNode.Children() {
-		pArgs := nextExpr.GetPolicyArgs()
-
-		var key string
-		if len(pArgs) == 0 || nextExpr.IsLeafNode() {
-			key = util.Hash(rule)
-		} else {
-			r, _ := m.pDef.GetParameters(rule, pArgs)
-			key = util.Hash(r)
-		}
+		key := m.nodeKey(rule, nextExpr)
 
 		if !nextExpr.IsLeafNode() {
 			if nextNode, ok := node.Children(i)[key]; ok {
-- 
2.43.0


From a818c9c6b2582c252eb02dfe67b2c318ec4371ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 05/41] fix: errors in later matcher stages must be reported

The error of a nested stage was dropped and the enumeration just stopped, so
rules which had not been visited yet (deny rules among them) were ignored.
---
 model/matcher/matcher.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 7d9441a..fb7609b 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -221,17 +221,22 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 
 func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherNode, params *MatchParameters, functions map[string]govaluate.ExpressionFunction, fn func(rule []string) bool) (bool, error) {
 	for i, nextExpr := range exprNode.Children() {
+		var nextErr error
 		cont, err := m.rangeMatches(nextExpr, node.Children(i), params, functions, func(nextNode *MatcherNode) bool {
 			if nextExpr.IsLeafNode() && !fn(nextNode.rule) {
 				return false //break
 			} else {
-				cont, err := m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
-				if err != nil || !cont {
+				var cont bool
+				cont, nextErr = m.rangeMatchesHelper(nextExpr, nextNode, params, functions, fn)
+				if nextErr != nil || !cont {
 					return false
 				}
 			}
 			return true //continue
 		})
+		if err == nil {
+			err = nextErr
+		}
 		if err != nil {
 			return false, err
 		}
-- 
2.43.0


From a0b657ef3ed8a752313ee78baf36ad11296f4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 06/41] fix: errors of the effector must be reported

---
 enforcer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 6cad9a0..8488260 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -333,11 +333,13 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 		return false, err
 	}
 	if eftErr != nil {
-		return false, err
+		return false, eftErr
 	}
 
 	if res == eft.Indeterminate {
-		res, _, _ = ctx.effector.MergeEffects(effects, matches, true)
+		if res, _, err = ctx.effector.MergeEffects(effects, matches, true); err != nil {
+			return false, err
+		}
 	}
 
 	return res == eft.Allow, nil
-- 
2.43.0


From c8d367e21afd0256ca2af57a14b92795b1bc6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 07/41] fix: requests must not share the eval function

Every request wrote its own eval function into the function map of the model.
Concurrent requests aborted with a concurrent map write or evaluated rule
expressions with the values of another request.
---
 model/fm/function.go     | 9 +++++++++
 model/matcher/matcher.go | 6 ++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/model/fm/function.go b/model/fm/function.go
index 8c0c05e..386116d 100644
--- a/model/fm/function.go
+++ b/model/fm/function.go
@@ -63,3 +63,12 @@ func (fm *FunctionMap) RemoveFunction(name string) bool {
 func (fm *FunctionMap) GetFunctions() map[string]govaluate.ExpressionFunction {
 	return fm.fns
 }
+
+// Clone returns a copy of the function map
+func (fm *FunctionMap) Clone() *FunctionMap {
+	clone := NewFunctionMap()
+	for name, fn := range fm.fns {
+		clone.fns[name] = fn
+	}
+	return clone
+}
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index fb7609b..a3e7d3b 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -249,8 +249,10 @@ func (m *Matcher) rangeMatchesHelper(exprNode *defs.MatcherStage, node *MatcherN
 
 func (m *Matcher) RangeMatches(rDef defs.RequestDef, rvals []interface{}, fMap fm.FunctionMap, fn func(rule []string) bool) error {
 	params := NewMatchParameters(*m.pDef, nil, rDef, rvals)
-	fMap.SetFunction("eval", generateEvalFunction(fMap, params))
-	functions := fMap.GetFunctions()
+	// the eval function belongs to this request, it must not be visible to other requests
+	requestMap := fMap.Clone()
+	requestMap.SetFunction("eval", generateEvalFunction(*requestMap, params))
+	functions := requestMap.GetFunctions()
 
 	_, err := m.rangeMatchesHelper(m.exprRoot, m.root, params, functions, fn)
 	if err != nil {
-- 
2.43.0


From 58856fc627aee64898cc127b2d61152c383101fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 08/41] fix: some-allow-no-deny must not depend on the order of
 the matches

The decision was taken from the first match, which can be a rule with an
unknown effect even though an allowing rule matched as well.
---
 model/effector/default_effector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model/effector/default_effector.go b/model/effector/default_effector.go
index 7a63f6e..07cb072 100644
--- a/model/effector/default_effector.go
+++ b/model/effector/default_effector.go
@@ -43,10 +43,12 @@ func (e *DefaultEffector) MergeEffects(effects []types.Effect, matches [][]strin
 		case eft.NO_DENY:
 			return eft.Allow, []string{}, nil
 		case eft.SOME_ALLOW_NO_DENY:
-			if len(matches) == 0 {
-				return eft.Deny, []string{}, nil
+			for i, effect := range effects {
+				if effect == eft.Allow {
+					return effect, matches[i], nil
+				}
 			}
-			return effects[0], matches[0], nil
+			return eft.Deny, []string{}, nil
 		}
 		return eft.Deny, []string{}, errors.New("unsupported effect")
 	}
-- 
2.43.0


From b3b52bcde544ff02e4871258cf8b1b86cee9842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 09/41] fix: enumerations must stop when the callback returns
 false

Model.RangeRules went on with the next policy, role managers with the next
role and domain managers with the next link.
---
 model/model.go         | 13 +++++++++++--
 rbac/domain_manager.go |  7 ++++---
 rbac/role_manager.go   |  7 ++++---
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/model/model.go b/model/model.go
index 88b8d5d..0f92159 100644
--- a/model/model.go
+++ b/model/model.go
@@ -404,17 +404,26 @@ func (m *Model) String() string {
 }
 
 func (m *Model) RangeRules(fn func(rule []string) bool) {
+	cont := true
 	for pKey, p := range m.pMap {
 		ruleKey := []string{pKey}
 		p.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
+		if !cont {
+			return
+		}
 	}
 	for gKey, rm := range m.rpMap {
 		ruleKey := []string{gKey}
 		rm.Range(func(rule []string) bool {
-			return fn(append(ruleKey, rule...))
+			cont = fn(append(ruleKey, rule...))
+			return cont
 		})
+		if !cont {
+			return
+		}
 	}
 }
 
diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 135ad93..1f56843 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -286,6 +286,7 @@ func (dm *DomainManager) GetAllDomains() ([]string, error) {
 }
 
 func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	rmMap.Range(func(key, value interface{}) bool {
 		roleManager := value.(IRoleManager)
 		domains := []string{}
@@ -294,11 +295,11 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 		}
 
 		roleManager.Range(func(name1, name2 string, domain ...string) bool {
-			fn(name1, name2, append(domains, domain...)...)
-			return true
+			cont = fn(name1, name2, append(domains, domain...)...)
+			return cont
 		})
 
-		return true
+		return cont
 	})
 }
 
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 098da72..f16d162 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -252,16 +252,17 @@ func (rm *RoleManager) GetAllDomains() ([]string, error) {
 }
 
 func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string) bool) {
+	cont := true
 	users.Range(func(_, value interface{}) bool {
 		user := value.(*Role)
 		user.roles.Range(func(key, _ interface{}) bool {
 			roleName := key.(string)
 			if _, ok := user.redundant.Load(roleName); !ok {
-				return fn(user.name, roleName)
+				cont = fn(user.name, roleName)
 			}
-			return true
+			return cont
 		})
-		return true
+		return cont
 	})
 }
 
-- 
2.43.0


From a68561ed77490bbeecf39f7e64e6ae151482f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 10/41] fix: storing under an existing cache key must replace
 the value

---
 util/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/cache.go b/util/cache.go
index 3ace430..3c8737b 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -71,6 +71,7 @@ func (cache *LRUCache) Put(key interface{}, value interface{}) {
 	n, ok := cache.m[key]
 	if ok {
 		cache.remove(n, false)
+		n.value = value
 	} else {
 		n = &node{key, value, nil, nil}
 		if len(cache.m) >= cache.capacity {
-- 
2.43.0


From f1bb11b7b97d1cdee0f46d5a3559d803defcc64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 11/41] fix: reading the shared cache modifies it, so it needs
 the exclusive lock

---
 util/cache.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/cache.go b/util/cache.go
index 3c8737b..9cf5d20 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -82,7 +82,7 @@ func (cache *LRUCache) Put(key interface{}, value interface{}) {
 }
 
 type SyncLRUCache struct {
-	rwm sync.RWMutex
+	mutex sync.Mutex
 	*LRUCache
 }
 
@@ -93,13 +93,14 @@ func NewSyncLRUCache(capacity int) *SyncLRUCache {
 }
 
 func (cache *SyncLRUCache) Get(key interface{}) (value interface{}, ok bool) {
-	cache.rwm.RLock()
-	defer cache.rwm.RUnlock()
+	// Get moves the entry to the head of the list, so a shared lock is not enough
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return cache.LRUCache.Get(key)
 }
 
 func (cache *SyncLRUCache) Put(key interface{}, value interface{}) {
-	cache.rwm.Lock()
-	defer cache.rwm.Unlock()
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	cache.LRUCache.Put(key, value)
 }
-- 
2.43.0


From 306fc96843177a252634abc6089154aa6f8d7f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 12/41] fix: querying an unknown domain pattern must not
 register it

The pattern was added to patternMap without a role manager, the next query of
a matching domain dereferenced nil.
---
 rbac/domain_manager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 1f56843..8ba1e2b 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -143,7 +143,9 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 		}
 		if dm.domainMatcher != nil {
 			if dm.domainMatcher.IsPattern(domain) {
-				dm.patternMap.Store(domain, nil)
+				if store {
+					dm.patternMap.Store(domain, nil)
+				}
 			} else {
 				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
 					rm2.Range(func(name1, name2 string, domain ...string) bool {
-- 
2.43.0


From bc0452ba5afaa3dc2ec8378287924315c24d56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 13/41] fix: role managers must be safe for concurrent use

Queries create temporary roles and remove them afterwards. A simultaneous
query or AddLink picked up such a role and lost its link when the role was
removed, or answered from a half-built role. Every method now takes a lock;
Range enumerates a snapshot, so its callback runs without the lock.
---
 rbac/domain_manager.go | 71 ++++++++++++++++++++++++++++++++++++++----
 rbac/role_manager.go   | 58 +++++++++++++++++++++++++++++++---
 2 files changed, 118 insertions(+), 11 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 8ba1e2b..9d4ebf4 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -23,7 +23,10 @@ import (
 
 const defaultDomain string = "RoleManager"
 
+// DomainManager provides a role manager for every domain
+// Its methods are safe for concurrent use.
 type DomainManager struct {
+	mutex             sync.Mutex
 	rmMap             *sync.Map
 	patternMap        *sync.Map
 	maxHierarchyLevel int
@@ -36,12 +39,15 @@ type DomainManager struct {
 // default DomainManager implementation.
 func NewDomainManager(maxHierarchyLevel int) *DomainManager {
 	dm := &DomainManager{}
-	_ = dm.Clear() // init rmMap and rmCache
+	dm.clear() // init rmMap and rmCache
 	dm.maxHierarchyLevel = maxHierarchyLevel
 	return dm
 }
 
 func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	dm.matcher = matcher
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		value.(IDefaultRoleManager).SetMatcher(matcher)
@@ -51,6 +57,9 @@ func (dm *DomainManager) SetMatcher(matcher util.IMatcher) {
 
 // SetDomainMatcher support use domain pattern in g
 func (dm *DomainManager) SetDomainMatcher(matcher util.IMatcher) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	dm.domainMatcher = matcher
 	dm.rmMap.Range(func(key, value interface{}) bool {
 		value.(IDefaultRoleManager).SetDomainMatcher(matcher)
@@ -62,19 +71,26 @@ func (dm *DomainManager) SetDomainMatcher(matcher util.IMatcher) {
 // clears the map of RoleManagers
 func (dm *DomainManager) rebuild() {
 	rmMap := dm.rmMap
-	_ = dm.Clear()
+	dm.clear()
 	dm.rangeLinks(rmMap, func(name1, name2 string, domain ...string) bool {
-		_, _ = dm.AddLink(name1, name2, domain...)
+		_, _ = dm.addLink(name1, name2, domain...)
 		return true
 	})
 }
 
 //Clear clears all stored data and resets the role manager to the initial state.
 func (dm *DomainManager) Clear() error {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
+	dm.clear()
+	return nil
+}
+
+func (dm *DomainManager) clear() {
 	dm.rmMap = &sync.Map{}
 	dm.patternMap = &sync.Map{}
 	dm.matchingFuncCache = util.NewSyncLRUCache(100)
-	return nil
 }
 
 func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains []string, err error) {
@@ -162,6 +178,13 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
+	return dm.addLink(name1, name2, domains...)
+}
+
+func (dm *DomainManager) addLink(name1 string, name2 string, domains ...string) (bool, error) {
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return false, err
@@ -180,6 +203,9 @@ func (dm *DomainManager) AddLink(name1 string, name2 string, domains ...string)
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return false, err
@@ -197,6 +223,9 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 
 // HasLink determines whether role: name1 inherits role: name2.
 func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return false, err
@@ -207,6 +236,9 @@ func (dm *DomainManager) HasLink(name1 string, name2 string, domains ...string)
 
 // GetRoles gets the roles that a subject inherits.
 func (dm *DomainManager) GetRoles(name string, domains ...string) ([]string, error) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return nil, err
@@ -217,6 +249,9 @@ func (dm *DomainManager) GetRoles(name string, domains ...string) ([]string, err
 
 // GetUsers gets the users of a role.
 func (dm *DomainManager) GetUsers(name string, domains ...string) ([]string, error) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	domain, subdomains, err := dm.getDomain(domains...)
 	if err != nil {
 		return nil, err
@@ -240,6 +275,9 @@ func (dm *DomainManager) resolveRoleManager(domains ...string) *RoleManager {
 
 // GetDomains gets domains that a user has
 func (dm *DomainManager) GetDomains(name string) ([]string, error) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	domainArr, err := dm.getAllDomainsHelper()
 	if err != nil {
 		return nil, err
@@ -261,7 +299,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 
 func (dm *DomainManager) getAllDomainsHelper() ([][]string, error) {
 	domainMap := make(map[string][]string)
-	dm.Range(func(name1, name2 string, domains ...string) bool {
+	dm.rangeLinks(dm.rmMap, func(name1, name2 string, domains ...string) bool {
 		domain := strings.Join(domains, "/")
 		domainMap[domain] = domains
 		return true
@@ -275,6 +313,9 @@ func (dm *DomainManager) getAllDomainsHelper() ([][]string, error) {
 
 // GetAllDomains gets all domains
 func (dm *DomainManager) GetAllDomains() ([]string, error) {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
 	domains, err := dm.getAllDomainsHelper()
 	if err != nil {
 		return nil, err
@@ -305,6 +346,24 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 	})
 }
 
+func (dm *DomainManager) links() [][]string {
+	dm.mutex.Lock()
+	defer dm.mutex.Unlock()
+
+	links := [][]string{}
+	dm.rangeLinks(dm.rmMap, func(name1, name2 string, domain ...string) bool {
+		links = append(links, append([]string{name1, name2}, domain...))
+		return true
+	})
+	return links
+}
+
+// Range calls fn for every link, which existed at the time of the call
 func (dm *DomainManager) Range(fn func(name1, name2 string, domain ...string) bool) {
-	dm.rangeLinks(dm.rmMap, fn)
+	// fn is called without holding the lock, it may use the role manager
+	for _, link := range dm.links() {
+		if !fn(link[0], link[1], link[2:]...) {
+			break
+		}
+	}
 }
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index f16d162..6033248 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -24,7 +24,9 @@ import (
 const REDUNDANT_ROLE = "redundant_role"
 
 // RoleManager provides a default implementation for the RoleManager interface
+// Its methods are safe for concurrent use. Queries create temporary roles, so they need the lock as well.
 type RoleManager struct {
+	mutex             sync.Mutex
 	allRoles          *sync.Map
 	patternRoles      *sync.Map
 	maxHierarchyLevel int
@@ -37,7 +39,7 @@ type RoleManager struct {
 // default RoleManager implementation.
 func NewRoleManager(maxHierarchyLevel int) *RoleManager {
 	rm := RoleManager{}
-	_ = rm.Clear() //init allRoles and matchingFuncCache
+	rm.clear() //init allRoles and matchingFuncCache
 	rm.maxHierarchyLevel = maxHierarchyLevel
 	return &rm
 }
@@ -52,9 +54,9 @@ func newRoleManagerWithMatchingFunc(maxHierarchyLevel int, matcher util.IMatcher
 // rebuilds role cache
 func (rm *RoleManager) rebuild() {
 	roles := rm.allRoles
-	_ = rm.Clear()
+	rm.clear()
 	rangeLinks(roles, func(name1, name2 string, domain ...string) bool {
-		_, _ = rm.AddLink(name1, name2, domain...)
+		_, _ = rm.addLink(name1, name2, domain...)
 		return true
 	})
 }
@@ -141,26 +143,42 @@ func (rm *RoleManager) removeRole(name string) {
 
 // SetMatcher support use pattern in g
 func (rm *RoleManager) SetMatcher(matcher util.IMatcher) {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
 	rm.matcher = matcher
 	rm.rebuild()
 }
 
 // SetDomainMatcher support use domain pattern in g
 func (rm *RoleManager) SetDomainMatcher(matcher util.IMatcher) {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
 	rm.domainMatcher = matcher
 }
 
 // Clear clears all stored data and resets the role manager to the initial state.
 func (rm *RoleManager) Clear() error {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
+	rm.clear()
+	return nil
+}
+
+func (rm *RoleManager) clear() {
 	rm.matchingFuncCache = util.NewSyncLRUCache(100)
 	rm.allRoles = &sync.Map{}
 	rm.patternRoles = &sync.Map{}
-	return nil
 }
 
 // AddLink adds the inheritance link between role: name1 and role: name2.
 // aka role: name1 inherits role: name2.
 func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
+	return rm.addLink(name1, name2, domains...)
+}
+
+func (rm *RoleManager) addLink(name1 string, name2 string, domains ...string) (bool, error) {
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
@@ -174,6 +192,9 @@ func (rm *RoleManager) AddLink(name1 string, name2 string, domains ...string) (b
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
 // aka role: name1 does not inherit role: name2 any more.
 func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
+
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
@@ -186,6 +207,9 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 
 // HasLink determines whether role: name1 inherits role: name2.
 func (rm *RoleManager) HasLink(name1 string, name2 string, domains ...string) (bool, error) {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
+
 	if name1 == name2 || (rm.matcher != nil && rm.match(name1, name2)) {
 		return true, nil
 	}
@@ -224,6 +248,9 @@ func (rm *RoleManager) hasLinkHelper(targetName string, roles map[string]*Role,
 
 // GetRoles gets the roles that a user inherits.
 func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error) {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
+
 	user, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(user.name)
@@ -234,6 +261,9 @@ func (rm *RoleManager) GetRoles(name string, domains ...string) ([]string, error
 // GetUsers gets the users of a role.
 // domain is an unreferenced parameter here, may be used in other implementations.
 func (rm *RoleManager) GetUsers(name string, domain ...string) ([]string, error) {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
+
 	role, created := rm.getRole(name)
 	if created {
 		defer rm.removeRole(role.name)
@@ -266,6 +296,24 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 	})
 }
 
+func (rm *RoleManager) links() [][]string {
+	rm.mutex.Lock()
+	defer rm.mutex.Unlock()
+
+	links := [][]string{}
+	rangeLinks(rm.allRoles, func(name1, name2 string, domain ...string) bool {
+		links = append(links, append([]string{name1, name2}, domain...))
+		return true
+	})
+	return links
+}
+
+// Range calls fn for every link, which existed at the time of the call
 func (rm *RoleManager) Range(fn func(name1, name2 string, domain ...string) bool) {
-	rangeLinks(rm.allRoles, fn)
+	// fn is called without holding the lock, it may use the role manager
+	for _, link := range rm.links() {
+		if !fn(link[0], link[1], link[2:]...) {
+			break
+		}
+	}
 }
-- 
2.43.0


From 9205f9e24effbe83bc79828e33cd6aa5031b82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 14/41] fix: links of domain patterns must not replace or hide
 explicit links

Links inherited from a matching domain pattern were stored as if they had been
added to the domain itself, with a single flag. Revoking the pattern's link
also revoked an explicit link of the domain, or one that a second pattern still
grants; adding an explicit link next to an inherited one was reported as
already present; changing the matcher dropped inherited links; and a new
subdomain did not inherit links that came through a pattern one level up.
Every inherited link now carries the patterns it comes from.
---
 rbac/domain_manager.go | 75 +++++++++++++++++++++++++++++++++---------
 rbac/role.go           | 28 ++++++++++++++--
 rbac/role_manager.go   | 58 +++++++++++++++++++++++++++-----
 3 files changed, 134 insertions(+), 27 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 9d4ebf4..87bd3d5 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -23,12 +23,20 @@ import (
 
 const defaultDomain string = "RoleManager"
 
+// domainRoleManager is a role manager, which is managed by a DomainManager
+type domainRoleManager interface {
+	IDefaultRoleManager
+
+	rangeAllLinks(fn func(name1, name2 string, domain ...string))
+}
+
 // DomainManager provides a role manager for every domain
 // Its methods are safe for concurrent use.
 type DomainManager struct {
 	mutex             sync.Mutex
 	rmMap             *sync.Map
 	patternMap        *sync.Map
+	path              []string //domains above this manager
 	maxHierarchyLevel int
 	matcher           util.IMatcher
 	domainMatcher     util.IMatcher
@@ -97,11 +105,27 @@ func (dm *DomainManager) getDomain(domains ...string) (domain string, subdomains
 	if len(domains) == 0 {
 		return defaultDomain, []string{}, nil
 	} else if domains[0] == REDUNDANT_ROLE {
-		return defaultDomain, []string{REDUNDANT_ROLE}, nil
+		return defaultDomain, domains, nil
 	}
 	return domains[0], domains[1:], nil
 }
 
+// redundantDomains returns the subdomains of a redundant link.
+// The link carries its source, because several patterns can be the reason for the same link.
+func (dm *DomainManager) redundantDomains(domains ...string) []string {
+	if _, ok := redundantSource(domains); ok {
+		return domains[1:]
+	}
+	res := append([]string{}, domains[1:]...)
+	res = append(res, REDUNDANT_ROLE)
+	res = append(res, dm.path...)
+	return append(res, domains...)
+}
+
+func (dm *DomainManager) isPattern(domain string) bool {
+	return domain != defaultDomain && dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain)
+}
+
 func (dm *DomainManager) match(str string, pattern string) bool {
 	cacheKey := strings.Join([]string{str, pattern}, "$$")
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
@@ -113,9 +137,9 @@ func (dm *DomainManager) match(str string, pattern string) bool {
 	}
 }
 
-func (dm *DomainManager) load(name interface{}) (value IDefaultRoleManager, ok bool) {
+func (dm *DomainManager) load(name interface{}) (value domainRoleManager, ok bool) {
 	if r, ok := dm.rmMap.Load(name); ok {
-		return r.(IDefaultRoleManager), true
+		return r.(domainRoleManager), true
 	}
 	return nil, false
 }
@@ -130,12 +154,12 @@ func (dm *DomainManager) rangeMatchingRMs(pattern string, fn func(rm IRoleManage
 	})
 }
 
-func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleManager)) {
+func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(pattern string, rm domainRoleManager)) {
 	dm.patternMap.Range(func(key, _ interface{}) bool {
 		pattern := key.(string)
 		if pattern != domain && dm.match(domain, pattern) {
 			value, _ := dm.load(pattern)
-			fn(value)
+			fn(pattern, value)
 		}
 		return true
 	})
@@ -143,12 +167,14 @@ func (dm *DomainManager) rangeMatchingPatterns(domain string, fn func(rm IRoleMa
 
 // load or create a RoleManager instance of domain
 func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ...string) IRoleManager {
-	var rm IDefaultRoleManager
+	var rm domainRoleManager
 	var ok bool
 
 	if rm, ok = dm.load(domain); !ok {
 		if domain != defaultDomain {
-			rm = NewDomainManager(dm.maxHierarchyLevel - 1)
+			child := NewDomainManager(dm.maxHierarchyLevel - 1)
+			child.path = append(append([]string{}, dm.path...), domain)
+			rm = child
 			rm.SetMatcher(dm.matcher)
 			rm.SetDomainMatcher(dm.domainMatcher)
 		} else {
@@ -158,15 +184,18 @@ func (dm *DomainManager) getRoleManager(domain string, store bool, subdomains ..
 			dm.rmMap.Store(domain, rm)
 		}
 		if dm.domainMatcher != nil {
-			if dm.domainMatcher.IsPattern(domain) {
+			if dm.isPattern(domain) {
 				if store {
 					dm.patternMap.Store(domain, nil)
 				}
 			} else {
-				dm.rangeMatchingPatterns(domain, func(rm2 IRoleManager) {
-					rm2.Range(func(name1, name2 string, domain ...string) bool {
-						_, _ = rm.AddLink(name1, name2, append(domain, REDUNDANT_ROLE)...)
-						return true
+				dm.rangeMatchingPatterns(domain, func(pattern string, rm2 domainRoleManager) {
+					rm2.rangeAllLinks(func(name1, name2 string, subdomains ...string) {
+						if source, ok := redundantSource(subdomains); ok && source[len(dm.path)] != pattern {
+							return // link of another pattern
+						}
+						domains := append([]string{pattern}, subdomains...)
+						_, _ = rm.AddLink(name1, name2, dm.redundantDomains(domains...)...)
 					})
 				})
 			}
@@ -192,9 +221,9 @@ func (dm *DomainManager) addLink(name1 string, name2 string, domains ...string)
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	added, _ := roleManager.AddLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if dm.isPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.AddLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.AddLink(name1, name2, dm.redundantDomains(domains...)...)
 		})
 	}
 	return added, nil
@@ -213,9 +242,9 @@ func (dm *DomainManager) DeleteLink(name1 string, name2 string, domains ...strin
 	roleManager := dm.getRoleManager(domain, true, subdomains...) //create role manager if it does not exist
 	removed, _ := roleManager.DeleteLink(name1, name2, subdomains...)
 
-	if dm.domainMatcher != nil && dm.domainMatcher.IsPattern(domain) {
+	if dm.isPattern(domain) {
 		dm.rangeMatchingRMs(domain, func(rm IRoleManager) {
-			_, _ = rm.DeleteLink(name1, name2, append(subdomains, REDUNDANT_ROLE)...)
+			_, _ = rm.DeleteLink(name1, name2, dm.redundantDomains(domains...)...)
 		})
 	}
 	return removed, nil
@@ -346,6 +375,20 @@ func (dm *DomainManager) rangeLinks(rmMap *sync.Map, fn func(name1, name2 string
 	})
 }
 
+// rangeAllLinks includes redundant links
+func (dm *DomainManager) rangeAllLinks(fn func(name1, name2 string, domain ...string)) {
+	dm.rmMap.Range(func(key, value interface{}) bool {
+		domains := []string{}
+		if d := key.(string); d != defaultDomain {
+			domains = append(domains, d)
+		}
+		value.(domainRoleManager).rangeAllLinks(func(name1, name2 string, domain ...string) {
+			fn(name1, name2, append(domains, domain...)...)
+		})
+		return true
+	})
+}
+
 func (dm *DomainManager) links() [][]string {
 	dm.mutex.Lock()
 	defer dm.mutex.Unlock()
diff --git a/rbac/role.go b/rbac/role.go
index f8976c8..7512c4a 100644
--- a/rbac/role.go
+++ b/rbac/role.go
@@ -17,6 +17,8 @@ package rbac
 import (
 	"strings"
 	"sync"
+
+	"github.com/abichinger/fastac/util"
 )
 
 // Role represents the data structure for a role in RBAC.
@@ -26,7 +28,8 @@ type Role struct {
 	users     *sync.Map
 	matched   *sync.Map
 	matchedBy *sync.Map
-	redundant *sync.Map //string set of redundant roles
+	explicit  *sync.Map                      //string set of roles, which have been linked explicitly
+	redundant map[string]map[string][]string //roles, which are linked because of matching domain patterns, and these patterns
 }
 
 func newRole(name string) *Role {
@@ -36,7 +39,8 @@ func newRole(name string) *Role {
 	r.users = &sync.Map{}
 	r.matched = &sync.Map{}
 	r.matchedBy = &sync.Map{}
-	r.redundant = &sync.Map{}
+	r.explicit = &sync.Map{}
+	r.redundant = make(map[string]map[string][]string)
 	return &r
 }
 
@@ -63,6 +67,26 @@ func (r *Role) removeRole(role *Role) bool {
 	return true
 }
 
+func (r *Role) addSource(roleName string, source []string) {
+	if r.redundant[roleName] == nil {
+		r.redundant[roleName] = make(map[string][]string)
+	}
+	r.redundant[roleName][util.Hash(source)] = source
+}
+
+func (r *Role) removeSource(roleName string, source []string) {
+	delete(r.redundant[roleName], util.Hash(source))
+	if len(r.redundant[roleName]) == 0 {
+		delete(r.redundant, roleName)
+	}
+}
+
+// isLinked reports whether at least one explicit or redundant link is left
+func (r *Role) isLinked(roleName string) bool {
+	_, ok := r.explicit.Load(roleName)
+	return ok || len(r.redundant[roleName]) > 0
+}
+
 //should only be called inside addRole
 func (r *Role) addUser(user *Role) {
 	r.users.Store(user.name, user)
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 6033248..6a24f51 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -55,12 +55,21 @@ func newRoleManagerWithMatchingFunc(maxHierarchyLevel int, matcher util.IMatcher
 func (rm *RoleManager) rebuild() {
 	roles := rm.allRoles
 	rm.clear()
-	rangeLinks(roles, func(name1, name2 string, domain ...string) bool {
+	rangeAllLinks(roles, func(name1, name2 string, domain ...string) {
 		_, _ = rm.addLink(name1, name2, domain...)
-		return true
 	})
 }
 
+// redundantSource returns the domains of the link, which is the reason for a redundant link
+func redundantSource(domains []string) (source []string, ok bool) {
+	for i, domain := range domains {
+		if domain == REDUNDANT_ROLE {
+			return domains[i+1:], true
+		}
+	}
+	return nil, false
+}
+
 func (rm *RoleManager) match(str string, pattern string) bool {
 	cacheKey := strings.Join([]string{str, pattern}, "$$")
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
@@ -182,11 +191,16 @@ func (rm *RoleManager) addLink(name1 string, name2 string, domains ...string) (b
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.LoadOrStore(name2, nil)
+	if source, ok := redundantSource(domains); ok {
+		user.addSource(name2, source)
+		return user.addRole(role), nil
 	}
 
-	return user.addRole(role), nil
+	if _, ok := user.explicit.LoadOrStore(name2, nil); ok {
+		return false, nil
+	}
+	user.addRole(role)
+	return true, nil
 }
 
 // DeleteLink deletes the inheritance link between role: name1 and role: name2.
@@ -198,11 +212,16 @@ func (rm *RoleManager) DeleteLink(name1 string, name2 string, domains ...string)
 	user, _ := rm.getRole(name1)
 	role, _ := rm.getRole(name2)
 
-	if len(domains) > 0 && domains[0] == REDUNDANT_ROLE {
-		user.redundant.Delete(name2)
+	if source, ok := redundantSource(domains); ok {
+		user.removeSource(name2, source)
+	} else if _, ok := loadAndDelete(user.explicit, name2); !ok {
+		return false, nil
 	}
 
-	return user.removeRole(role), nil
+	if !user.isLinked(name2) {
+		user.removeRole(role)
+	}
+	return true, nil
 }
 
 // HasLink determines whether role: name1 inherits role: name2.
@@ -287,7 +306,7 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 		user := value.(*Role)
 		user.roles.Range(func(key, _ interface{}) bool {
 			roleName := key.(string)
-			if _, ok := user.redundant.Load(roleName); !ok {
+			if _, ok := user.explicit.Load(roleName); ok {
 				cont = fn(user.name, roleName)
 			}
 			return cont
@@ -296,6 +315,27 @@ func rangeLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)
 	})
 }
 
+// rangeAllLinks includes redundant links
+func rangeAllLinks(users *sync.Map, fn func(name1, name2 string, domain ...string)) {
+	rangeLinks(users, func(name1, name2 string, domain ...string) bool {
+		fn(name1, name2, domain...)
+		return true
+	})
+	users.Range(func(_, value interface{}) bool {
+		user := value.(*Role)
+		for roleName, sources := range user.redundant {
+			for _, source := range sources {
+				fn(user.name, roleName, append([]string{REDUNDANT_ROLE}, source...)...)
+			}
+		}
+		return true
+	})
+}
+
+func (rm *RoleManager) rangeAllLinks(fn func(name1, name2 string, domain ...string)) {
+	rangeAllLinks(rm.allRoles, fn)
+}
+
 func (rm *RoleManager) links() [][]string {
 	rm.mutex.Lock()
 	defer rm.mutex.Unlock()
-- 
2.43.0


From 52186e5896a91d3c534518696cda00b4986a9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 15/41] fix: changes rejected by the storage must stay pending

Operations were taken off the queue before the adapter had accepted them, so
a failed flush lost them.
---
 storage/controller.go | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/storage/controller.go b/storage/controller.go
index 2c9e208..af380ee 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -128,43 +128,32 @@ func (sc *StorageController) AutosaveEnabled() bool {
 func (sc *StorageController) flush() error {
 	for len(sc.q) > 0 {
 		operation := sc.q[0]
-		sc.q = sc.q[1:]
 		if err := sc.run(operation.opc, operation.rule); err != nil {
 			return err
 		}
+		sc.q = sc.q[1:]
 	}
 	return nil
 }
 
 func (sc *StorageController) batchFlush() error {
 
-	rules := [][]string{}
-
-	var currentOpc opcode
-	if len(sc.q) > 0 {
-		currentOpc = sc.q[0].opc
-	}
-
 	for len(sc.q) > 0 {
 
-		operation := sc.q[0]
-		sc.q = sc.q[1:]
+		rules := [][]string{}
+		currentOpc := sc.q[0].opc
 
-		if currentOpc == operation.opc {
-			rules = append(rules, operation.rule)
-		} else {
-			if err := sc.runBatch(currentOpc, rules); err != nil {
-				return err
+		for _, operation := range sc.q {
+			if currentOpc != operation.opc {
+				break
 			}
-			currentOpc = operation.opc
-			rules = [][]string{operation.rule}
+			rules = append(rules, operation.rule)
 		}
-	}
 
-	if len(rules) > 0 {
 		if err := sc.runBatch(currentOpc, rules); err != nil {
 			return err
 		}
+		sc.q = sc.q[len(rules):]
 	}
 	return nil
 }
-- 
2.43.0


From fe2ad0b96564ede0c2491029abc33d515607f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 16/41] fix: a storage failure during autosave must be
 returned, not panic

The panic left the event emitter locked, so disabling the storage or loading
the policy afterwards blocked forever. The rejected change stays pending and
the rule change returns the error.
---
 enforcer.go           | 26 ++++++++++++++++++--------
 storage/controller.go | 14 ++++++++++----
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 8488260..e2372a0 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -176,7 +176,12 @@ func (e *Enforcer) Flush() error {
 // Add grouping rule:
 //  e.AddRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) AddRule(rule []string) (bool, error) {
-	return e.model.AddRule(rule)
+	_ = e.sc.Err() // forget errors of earlier changes
+	added, err := e.model.AddRule(rule)
+	if err == nil {
+		err = e.sc.Err()
+	}
+	return added, err
 }
 
 // RemoveRule removes a rule from the model
@@ -187,17 +192,22 @@ func (e *Enforcer) AddRule(rule []string) (bool, error) {
 // Add grouping rule:
 //  e.RemoveRule([]string{"g", "alice", "group1"})
 func (e *Enforcer) RemoveRule(rule []string) (bool, error) {
-	return e.model.RemoveRule(rule)
+	_ = e.sc.Err() // forget errors of earlier changes
+	removed, err := e.model.RemoveRule(rule)
+	if err == nil {
+		err = e.sc.Err()
+	}
+	return removed, err
 }
 
 // AddRules adds multiple rules to the model
-func (e *Enforcer) AddRules(rules [][]string) error {
+func (e *Enforcer) AddRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); err == nil {
+				err = flushErr
 			}
 		}()
 	}
@@ -210,13 +220,13 @@ func (e *Enforcer) AddRules(rules [][]string) error {
 }
 
 // RemoveRules removes multiple rules from the model
-func (e *Enforcer) RemoveRules(rules [][]string) error {
+func (e *Enforcer) RemoveRules(rules [][]string) (err error) {
 	if e.sc.AutosaveEnabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-			if err := e.sc.Flush(); err != nil {
-				panic(err)
+			if flushErr := e.sc.Flush(); err == nil {
+				err = flushErr
 			}
 		}()
 	}
diff --git a/storage/controller.go b/storage/controller.go
index af380ee..7c2724c 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -46,6 +46,7 @@ type StorageController struct {
 	q         []operation
 	wait      int
 	listeners []listener
+	err       error //error of the last autosave
 }
 
 func NewStorageController(eventemitter api.IAddRemoveListener, adapter Adapter, autosave bool) *StorageController {
@@ -105,14 +106,19 @@ func (sc *StorageController) addOp(opc opcode, rule []string) {
 	if sc.autosave {
 		sc.wait--
 		if sc.wait <= 0 {
-			err := sc.Flush()
-			if err != nil {
-				panic(err)
-			}
+			// a panic would leave the emitter locked
+			sc.err = sc.Flush()
 		}
 	}
 }
 
+// Err returns the error of the last autosave and resets it
+func (sc *StorageController) Err() error {
+	err := sc.err
+	sc.err = nil
+	return err
+}
+
 func (sc *StorageController) EnableAutosave() {
 	sc.autosave = true
 }
-- 
2.43.0


From 254478ff854ce33d79b1d4f1349fe9dbd331495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 17/41] fix: keep the file adapter, when the enforcer is
 created with a policy path

The variable was shadowed, so the enforcer ended up without an adapter:
SavePolicy panicked and every flush failed.
---
 enforcer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index e2372a0..e469c28 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -98,7 +98,7 @@ func NewEnforcer(model interface{}, adapter interface{}, options ...Option) (*En
 	var a3 storage.Adapter
 	switch a2 := adapter.(type) {
 	case string:
-		a3 := a.NewFileAdapter(a2)
+		a3 = a.NewFileAdapter(a2)
 		if err := a3.LoadPolicy(e.model); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 80c21c8649b659c85dacfa3f53ee991d324df4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 18/41] fix: changes covered by a full save must not be flushed
 again

After SavePolicy the pending changes were still queued and applied a second
time by the next flush, which a storage can reject forever (for example the
removal of a rule it does not have).
---
 enforcer.go           | 7 ++++++-
 storage/controller.go | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/enforcer.go b/enforcer.go
index e469c28..99477a8 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -156,7 +156,12 @@ func (e *Enforcer) LoadPolicy() error {
 
 //SavePolicy stores all rules from the model into the storage adapter.
 func (e *Enforcer) SavePolicy() error {
-	return e.adapter.SavePolicy(e.model)
+	if err := e.adapter.SavePolicy(e.model); err != nil {
+		return err
+	}
+	// the pending changes have been saved as part of the model
+	e.sc.DiscardPending()
+	return nil
 }
 
 // Flush sends all the modifications of the rule set to the storage adapter.
diff --git a/storage/controller.go b/storage/controller.go
index 7c2724c..00a9ffb 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -180,6 +180,11 @@ func (sc *StorageController) Flush() error {
 	return err
 }
 
+// DiscardPending drops all changes, which have not been flushed yet
+func (sc *StorageController) DiscardPending() {
+	sc.q = nil
+}
+
 func (sc *StorageController) run(opc opcode, rule []string) error {
 	adapter := sc.adapter.(SimpleAdapter)
 	var err error
-- 
2.43.0


From a73da6fa8ad23306fe92149dfd1cb003405552f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 19/41] fix: changes of a replaced model must reach the storage

SetModel left the storage controller attached to the old model.
---
 enforcer.go           |  1 +
 storage/controller.go | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/enforcer.go b/enforcer.go
index 99477a8..68e0579 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -362,6 +362,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 func (e *Enforcer) SetModel(model m.IModel) {
 	e.model = model
+	e.sc.SetEmitter(model)
 }
 
 func (e *Enforcer) GetModel() m.IModel {
diff --git a/storage/controller.go b/storage/controller.go
index 00a9ffb..6a4c601 100644
--- a/storage/controller.go
+++ b/storage/controller.go
@@ -101,6 +101,16 @@ func (sc *StorageController) Disable() {
 	sc.listeners = []listener{}
 }
 
+// SetEmitter replaces the source of rule changes
+func (sc *StorageController) SetEmitter(em api.IAddRemoveListener) {
+	enabled := sc.Enabled()
+	sc.Disable()
+	sc.em = em
+	if enabled {
+		sc.Enable()
+	}
+}
+
 func (sc *StorageController) addOp(opc opcode, rule []string) {
 	sc.q = append(sc.q, operation{opc, rule})
 	if sc.autosave {
-- 
2.43.0


From 96f17149aff4e22fe476561e0def2acd09d1e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 20/41] fix: bulk changes must not write to a storage that is
 switched off

---
 enforcer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index 68e0579..e2c4127 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -207,7 +207,7 @@ func (e *Enforcer) RemoveRule(rule []string) (bool, error) {
 
 // AddRules adds multiple rules to the model
 func (e *Enforcer) AddRules(rules [][]string) (err error) {
-	if e.sc.AutosaveEnabled() {
+	if e.sc.AutosaveEnabled() && e.sc.Enabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
@@ -226,7 +226,7 @@ func (e *Enforcer) AddRules(rules [][]string) (err error) {
 
 // RemoveRules removes multiple rules from the model
 func (e *Enforcer) RemoveRules(rules [][]string) (err error) {
-	if e.sc.AutosaveEnabled() {
+	if e.sc.AutosaveEnabled() && e.sc.Enabled() {
 		e.sc.DisableAutosave()
 		defer func() {
 			e.sc.EnableAutosave()
-- 
2.43.0


From 55c5b8f47e969ac025946d11a51218b488dbcaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 21/41] fix: saving the policy file must be atomic and durable

The old file was removed before the new one was written, so a crash or a full
disk lost the policy. Nothing was synced, write errors on close were ignored,
and every save leaked two file handles.
---
 storage/adapter/fileadapter.go | 62 +++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 682f49e..841d9e5 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -16,14 +16,16 @@ package adapter
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/csv"
 	"os"
+	"path/filepath"
+	"runtime"
 	"strings"
 
 	"github.com/abichinger/fastac/api"
 	"github.com/abichinger/fastac/model/defs"
 	"github.com/abichinger/fastac/model/policy"
-	"github.com/abichinger/fastac/util"
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
@@ -95,40 +97,54 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	return scanner.Err()
 }
 
-func getWriter(path string) (*bufio.Writer, error) {
-	if exists, err := util.FileExists(path); err != nil {
-		return nil, err
-	} else if exists {
-		if err := os.Remove(path); err != nil {
-			return nil, err
-		}
+// replaceFile replaces the content of a file.
+// At any time, even after a crash, the file has either the old or the new content.
+func replaceFile(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	file, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
 	}
-	if _, err := os.Create(path); err != nil {
-		return nil, err
+	if err == nil {
+		err = os.Rename(tmpPath, path)
 	}
-	f, err := os.OpenFile(path, os.O_WRONLY, 0600)
 	if err != nil {
-		return nil, err
+		_ = os.Remove(tmpPath)
+		return err
 	}
-	return bufio.NewWriter(f), nil
+	return syncDir(filepath.Dir(path))
 }
 
-func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
-	writer, err := getWriter(a.path)
+// syncDir makes a rename durable
+func syncDir(path string) error {
+	if runtime.GOOS == "windows" {
+		return nil // directories can not be synced
+	}
+	dir, err := os.Open(path)
 	if err != nil {
 		return err
 	}
+	err = dir.Sync()
+	if closeErr := dir.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
+func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
+	var buf bytes.Buffer
 	model.RangeRules(func(rule []string) bool {
-		if _, err = writer.WriteString(strings.Join(rule, ", ") + "\n"); err != nil {
-			return false
-		}
+		buf.WriteString(strings.Join(rule, ", ") + "\n")
 		return true
 	})
-	if err != nil {
-		return err
-	}
-
-	return writer.Flush()
+	return replaceFile(a.path, buf.Bytes())
 }
 
 func (a *FileAdapter) AddRule(rule []string) error {
-- 
2.43.0


From 8d7541b29d068eb370d93d919ad86e8a61b8b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 22/41] fix: the policy file must give back the rules, which
 have been saved

Values with commas, quotes, line breaks, leading or trailing spaces and rules
starting with '#' were written unquoted and came back changed, split or not at
all. Lines longer than 64 KB could not be loaded.
---
 storage/adapter/fileadapter.go | 51 +++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/storage/adapter/fileadapter.go b/storage/adapter/fileadapter.go
index 841d9e5..8d0ea31 100644
--- a/storage/adapter/fileadapter.go
+++ b/storage/adapter/fileadapter.go
@@ -15,9 +15,9 @@
 package adapter
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/csv"
+	"io"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -29,17 +29,36 @@ import (
 )
 
 // LoadPolicyLine loads a text line as a policy rule to model.
+func newReader(reader io.Reader) *csv.Reader {
+	r := csv.NewReader(reader)
+	r.Comma = ','
+	r.Comment = '#'
+	r.TrimLeadingSpace = true
+	r.FieldsPerRecord = -1
+	return r
+}
+
+// formatRule is the inverse of reading a rule. Values are quoted, if necessary
+func formatRule(rule []string) string {
+	values := make([]string, len(rule))
+	for i, value := range rule {
+		if (value == "" && len(rule) == 1) ||
+			strings.ContainsAny(value, ",\"\r\n") ||
+			strings.HasPrefix(value, "#") ||
+			strings.TrimSpace(value) != value {
+			value = `"` + strings.ReplaceAll(value, `"`, `""`) + `"`
+		}
+		values[i] = value
+	}
+	return strings.Join(values, ", ") + "\n"
+}
+
 func LoadPolicyLine(line string, m api.IAddRuleBool) error {
 	if line == "" || strings.HasPrefix(line, "#") {
 		return nil
 	}
 
-	r := csv.NewReader(strings.NewReader(line))
-	r.Comma = ','
-	r.Comment = '#'
-	r.TrimLeadingSpace = true
-
-	tokens, err := r.Read()
+	tokens, err := newReader(strings.NewReader(line)).Read()
 	if err != nil {
 		return err
 	}
@@ -87,14 +106,20 @@ func (a *FileAdapter) LoadPolicy(model api.IAddRuleBool) error {
 	}
 	defer file.Close()
 
-	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
-		if err := LoadPolicyLine(scanner.Text(), model); err != nil {
+	// a rule can span several lines, if its values contain line breaks
+	r := newReader(file)
+	for {
+		rule, err := r.Read()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if _, err := model.AddRule(rule); err != nil {
 			return err
 		}
 	}
-
-	return scanner.Err()
 }
 
 // replaceFile replaces the content of a file.
@@ -141,7 +166,7 @@ func syncDir(path string) error {
 func (a *FileAdapter) SavePolicy(model api.IRangeRules) error {
 	var buf bytes.Buffer
 	model.RangeRules(func(rule []string) bool {
-		buf.WriteString(strings.Join(rule, ", ") + "\n")
+		buf.WriteString(formatRule(rule))
 		return true
 	})
 	return replaceFile(a.path, buf.Bytes())
-- 
2.43.0


From 3f3c555e29509837cc2604df4cbcec78b53b429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 23/41] fix: malformed rules must be rejected with an error

Adding, removing or loading an empty rule, a rule with an empty key or a
grouping rule with less than two names panicked.
---
 model/model.go | 13 +++++++++++++
 str/errors.go  |  1 +
 2 files changed, 14 insertions(+)

diff --git a/model/model.go b/model/model.go
index 0f92159..215aa74 100644
--- a/model/model.go
+++ b/model/model.go
@@ -245,7 +245,17 @@ func (m *Model) BuildMatcherFromDef(mDef *defs.MatcherDef) (matcher.IMatcher, er
 	return matcher.NewMatcher(pDef, policy, mDef.Root()), nil
 }
 
+func validateRule(rule []string) error {
+	if len(rule) == 0 || rule[0] == "" || (rule[0][0] == G_SEC && len(rule) < 3) {
+		return fmt.Errorf(str.ERR_INVALID_RULE, rule)
+	}
+	return nil
+}
+
 func (m *Model) AddRule(rule []string) (bool, error) {
+	if err := validateRule(rule); err != nil {
+		return false, err
+	}
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -265,6 +275,9 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 }
 
 func (m *Model) RemoveRule(rule []string) (bool, error) {
+	if err := validateRule(rule); err != nil {
+		return false, err
+	}
 	key := rule[0]
 	sec := key[0]
 	var removed bool
diff --git a/str/errors.go b/str/errors.go
index b8b0b6b..b13c865 100644
--- a/str/errors.go
+++ b/str/errors.go
@@ -22,5 +22,6 @@ const (
 	ERR_RM_NOT_FOUND         = "error: role manager %s not found"
 	ERR_REQUESTDEF_NOT_FOUND = "error: request definition %s not found"
 	ERR_EFFECTOR_NOT_FOUND   = "error: effect definition %s not found"
+	ERR_INVALID_RULE         = "error: invalid rule %q"
 	ERR_INVALID_MODEL        = "invalid model"
 )
-- 
2.43.0


From ebff9117f2cd1974936c55e837824b6427619d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 24/41] fix: clearing the grouping rules must be announced to
 the matchers

---
 rbac/role_policy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rbac/role_policy.go b/rbac/role_policy.go
index f1193e3..caf1dc9 100644
--- a/rbac/role_policy.go
+++ b/rbac/role_policy.go
@@ -45,7 +45,11 @@ func (p *RolePolicy) GetDistinct(columns []int) ([][]string, error) {
 }
 
 func (p *RolePolicy) Clear() error {
-	return p.rm.Clear()
+	if err := p.rm.Clear(); err != nil {
+		return err
+	}
+	p.Emitter.EmitEvent(policy.EVT_CLEARED)
+	return nil
 }
 
 func (p *RolePolicy) GetRoleManager() IRoleManager {
-- 
2.43.0


From 5a909cc33e8d2968a52ac730ada6935872230aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 25/41] fix: rules must not share memory with the slice of the
 caller

A caller, who reused the slice for the next rule, changed the values of rules
already added and of changes waiting to be flushed.
---
 model/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/model.go b/model/model.go
index 215aa74..29ccee9 100644
--- a/model/model.go
+++ b/model/model.go
@@ -256,6 +256,7 @@ func (m *Model) AddRule(rule []string) (bool, error) {
 	if err := validateRule(rule); err != nil {
 		return false, err
 	}
+	rule = append([]string{}, rule...) // the caller may reuse the slice
 	key := rule[0]
 	sec := key[0]
 	var added bool
@@ -278,6 +279,7 @@ func (m *Model) RemoveRule(rule []string) (bool, error) {
 	if err := validateRule(rule); err != nil {
 		return false, err
 	}
+	rule = append([]string{}, rule...) // the caller may reuse the slice
 	key := rule[0]
 	sec := key[0]
 	var removed bool
-- 
2.43.0


From 464ad9a28d7a846c6b733e8fbdc4ddad479a68a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 26/41] fix: literals of a matcher must survive the split into
 stages

Quotes and backslashes inside strings were not escaped, regular expressions
and dates were printed without quotes, and large numbers with an exponent, so
the stage failed to evaluate or compared with another value.
---
 model/defs/matcher_def.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 2f746aa..fa3c730 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -3,7 +3,9 @@ package defs
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
+	"time"
 
 	"github.com/abichinger/govaluate"
 )
@@ -101,12 +103,24 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	return index, isBracket
 }
 
+var quoteReplacer = strings.NewReplacer(`\`, `\\`, `'`, `\'`, `"`, `\"`)
+
+func quote(str string) string {
+	return "'" + quoteReplacer.Replace(str) + "'"
+}
+
 func tokensToExpr(tokens []govaluate.ExpressionToken) string {
 	res := ""
 	for i, token := range tokens {
 		switch token.Kind {
 		case govaluate.STRING:
-			res += fmt.Sprintf("'%v'", token.Value)
+			res += quote(token.Value.(string))
+		case govaluate.PATTERN:
+			res += quote(fmt.Sprintf("%v", token.Value))
+		case govaluate.TIME:
+			res += quote(token.Value.(time.Time).Format(time.RFC3339Nano))
+		case govaluate.NUMERIC:
+			res += strconv.FormatFloat(token.Value.(float64), 'f', -1, 64)
 		case govaluate.CLAUSE:
 			res += "("
 		case govaluate.CLAUSE_CLOSE:
-- 
2.43.0


From e431cf9f36be800764da8b898115cb91fc62432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 27/41] fix: a matcher must not be split inside a conditional

The logical operators between ? and : belong to its branches, splitting there
changed the meaning of the matcher.
---
 model/defs/matcher_def.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index fa3c730..294b181 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -79,6 +79,7 @@ type MatcherDef struct {
 func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 	clauseCounter := 0
 	index := -1
+	orIndex := -1
 	isBracket := tokens[0].Kind == govaluate.CLAUSE
 
 	for i, token := range tokens {
@@ -90,16 +91,23 @@ func nextOperator(tokens []govaluate.ExpressionToken) (int, bool) {
 			if isBracket && clauseCounter == 0 && i != len(tokens)-1 {
 				isBracket = false
 			}
+		case govaluate.TERNARY:
+			if clauseCounter == 0 {
+				return -1, false // ? : has the lowest precedence
+			}
 		case govaluate.LOGICALOP:
 			if clauseCounter != 0 {
 				break
 			}
 			index = i
-			if token.Value == "||" {
-				return index, false
+			if token.Value == "||" && orIndex == -1 {
+				orIndex = i
 			}
 		}
 	}
+	if orIndex != -1 {
+		return orIndex, false
+	}
 	return index, isBracket
 }
 
-- 
2.43.0


From 8128c64e4dce53ac9701207f5160607bd8023d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 28/41] fix: string literals and parts of other names are not
 matcher arguments

The expressions were not anchored: "peter.smith" became "pete_smith"-like
text, r.group_name was taken for a policy argument as well, and a literal such
as "g.x" selected the wrong policy.
---
 model/defs/defs.go        | 28 +++++++++++++++++++++++++---
 model/defs/matcher_def.go |  6 +++---
 model/matcher/matcher.go  |  2 +-
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/model/defs/defs.go b/model/defs/defs.go
index 6d4340e..eaa2537 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -27,9 +27,31 @@ import (
 const DefaultSep = ","
 const DefaultRoleParty = "_"
 
-var ArgReg = regexp.MustCompile(`([prg][0-9]*)(\.|_)([A-Za-z0-9_]+)`)
-var pArgReg = regexp.MustCompile(`([pg][0-9]*)_([A-Za-z0-9_]+)`)
-var rArgReg = regexp.MustCompile(`(r[0-9]*)_([A-Za-z0-9_]+)`)
+// ArgReg matches a string literal, or an argument together with the character in front of it.
+var ArgReg = regexp.MustCompile(`['"](?:[^'"\\]|\\.)*['"]|(^|[^A-Za-z0-9_.'"])([prg][0-9]*)[._]([A-Za-z0-9_]+)`)
+
+// NormalizeArgs replaces the dot of every argument with an underscore.
+func NormalizeArgs(expr string) string {
+	return ArgReg.ReplaceAllStringFunc(expr, func(match string) string {
+		groups := ArgReg.FindStringSubmatch(match)
+		if groups[2] == "" {
+			return match // string literal
+		}
+		return groups[1] + groups[2] + "_" + groups[3]
+	})
+}
+
+// findArgs returns the arguments of a normalized expression, which start with one of the given prefixes.
+func findArgs(expr string, prefixes string) []string {
+	args := []string{}
+	for _, groups := range ArgReg.FindAllStringSubmatch(expr, -1) {
+		if groups[2] != "" && strings.Contains(prefixes, groups[2][:1]) {
+			args = append(args, groups[2]+"_"+groups[3])
+		}
+	}
+	return args
+}
+
 var evalReg = regexp.MustCompile(`\beval\b`)
 
 type IDef interface {
diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 294b181..0d3192e 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -20,8 +20,8 @@ type MatcherStage struct {
 func NewMatcherStage(expr string) *MatcherStage {
 	stage := &MatcherStage{}
 	stage.expr = expr
-	stage.pArgs = pArgReg.FindAllString(stage.expr, -1)
-	stage.rArgs = rArgReg.FindAllString(stage.expr, -1)
+	stage.pArgs = findArgs(stage.expr, "pg")
+	stage.rArgs = findArgs(stage.expr, "r")
 	return stage
 }
 
@@ -213,7 +213,7 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 	}()
 
 	def.root = NewMatcherStage("")
-	expr := ArgReg.ReplaceAllString(def.expr, "${1}_${3}")
+	expr := NormalizeArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index a3e7d3b..0d7f388 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -279,7 +279,7 @@ func generateEvalFunction(fMap fm.FunctionMap, parameters *MatchParameters) gova
 		}
 
 		expression := args[0].(string)
-		expression = defs.ArgReg.ReplaceAllString(expression, "${1}_${3}")
+		expression = defs.NormalizeArgs(expression)
 		return eval(expression, functions, parameters)
 	}
 }
-- 
2.43.0


From 4ef43eed3739d456bd70e855f157e1584c255988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 29/41] fix: building a shared matcher definition must not
 expose a partial tree

Build replaced the tree before it was complete, so a concurrent request with
the same definition could enumerate a matcher without any stage.
---
 model/defs/matcher_def.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 0d3192e..0178cad 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/abichinger/govaluate"
@@ -70,9 +71,10 @@ func (def *MatcherStage) NewExpressionWithFunctions(functions map[string]govalua
 }
 
 type MatcherDef struct {
-	key  string
-	expr string
-	root *MatcherStage
+	key   string
+	expr  string
+	mutex sync.RWMutex // a definition can be used by concurrent requests
+	root  *MatcherStage
 }
 
 //nextOperator returns the index of the next logical operator, or -1
@@ -195,7 +197,7 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 }
 
 func NewMatcherDef(key string, expr string) *MatcherDef {
-	return &MatcherDef{key, expr, nil}
+	return &MatcherDef{key: key, expr: expr}
 }
 
 func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction) (err error) {
@@ -212,16 +214,25 @@ func (def *MatcherDef) Build(functions map[string]govaluate.ExpressionFunction)
 		}
 	}()
 
-	def.root = NewMatcherStage("")
+	root := NewMatcherStage("")
 	expr := NormalizeArgs(def.expr)
 	parsedExpr, err := govaluate.NewEvaluableExpressionWithFunctions(expr, functions)
 	if err != nil {
 		return err
 	}
-	return buildExprTree(def.root, parsedExpr.Tokens(), nil)
+	if err := buildExprTree(root, parsedExpr.Tokens(), nil); err != nil {
+		return err
+	}
+
+	def.mutex.Lock()
+	defer def.mutex.Unlock()
+	def.root = root
+	return nil
 }
 
 func (def *MatcherDef) Root() *MatcherStage {
+	def.mutex.RLock()
+	defer def.mutex.RUnlock()
 	return def.root
 }
 
@@ -230,11 +241,11 @@ func (def *MatcherDef) GetKey() string {
 }
 
 func (def *MatcherDef) GetPolicyArgs() []string {
-	return def.root.RecursivePolicyArgs()
+	return def.Root().RecursivePolicyArgs()
 }
 
 func (def *MatcherDef) GetRequestArgs() []string {
-	return def.root.RecursiveRequestArgs()
+	return def.Root().RecursiveRequestArgs()
 }
 
 func (def *MatcherDef) GetPolicyKey() string {
-- 
2.43.0


From 044cacee6f07343fe219969f576d8a1e7403f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 30/41] fix: unknown definitions must be reported, not panic

This affects request definitions, matchers and role managers that do not exist
and access decisions with a matcher for grouping rules.
---
 context.go     | 8 ++++++--
 enforcer.go    | 6 +++++-
 model/model.go | 9 ++++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/context.go b/context.go
index e0caff9..aa866ad 100644
--- a/context.go
+++ b/context.go
@@ -103,10 +103,14 @@ func NewContext(model model.IModel, options ...ContextOption) (*Context, error)
 	}
 
 	if ctx.rDef == nil {
-		_ = SetRequestDef("r")(ctx)
+		if err := SetRequestDef("r")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.matcher == nil {
-		_ = SetMatcher("m")(ctx)
+		if err := SetMatcher("m")(ctx); err != nil {
+			return nil, err
+		}
 	}
 	if ctx.effector == nil {
 		_ = SetEffector("e")(ctx)
diff --git a/enforcer.go b/enforcer.go
index e2c4127..6250e60 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -16,6 +16,7 @@ package fastac
 
 import (
 	"errors"
+	"fmt"
 	"time"
 
 	log "github.com/abichinger/fastac/log"
@@ -325,7 +326,10 @@ func (e *Enforcer) RangeMatchesWithContext(ctx *Context, rvals []interface{}, fn
 
 func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 	def, _ := e.model.GetDef(m.P_SEC, ctx.matcher.GetPolicyKey())
-	pDef := def.(*defs.PolicyDef)
+	pDef, ok := def.(*defs.PolicyDef)
+	if !ok {
+		return false, fmt.Errorf(str.ERR_POLICY_NOT_FOUND, ctx.matcher.GetPolicyKey())
+	}
 	res := eft.Indeterminate
 	effects := []types.Effect{}
 	matches := [][]string{}
diff --git a/model/model.go b/model/model.go
index 29ccee9..dd2af6a 100644
--- a/model/model.go
+++ b/model/model.go
@@ -343,7 +343,10 @@ func (m *Model) SetPolicy(key string, policy policy.IPolicy) {
 
 func (m *Model) GetRoleManager(key string) (rbac.IRoleManager, bool) {
 	rp, ok := m.rpMap[key]
-	return rp.GetRoleManager(), ok
+	if !ok {
+		return nil, false
+	}
+	return rp.GetRoleManager(), true
 }
 
 func (m *Model) SetRoleManager(key string, rm rbac.IRoleManager) {
@@ -361,8 +364,8 @@ func (m *Model) SetMatcher(key string, matcher matcher.IMatcher) {
 }
 
 func (m *Model) GetRequestDef(key string) (*defs.RequestDef, bool) {
-	def, ok := m.defs[R_SEC][key]
-	return def.(*defs.RequestDef), ok
+	def, ok := m.defs[R_SEC][key].(*defs.RequestDef)
+	return def, ok
 }
 
 func (m *Model) SetRequestDef(key string, def *defs.RequestDef) {
-- 
2.43.0


From 481a4cfcd16a1ee7bc950e908c732f63a9adf04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 31/41] fix: malformed arguments of a matcher function must be
 reported as an error

regexMatch and ipMatch panicked on invalid request values, and so did role
checks with values that are not strings.
---
 rbac/role_manager_api.go  |  9 +++++++++
 util/builtin_operators.go | 16 ++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/rbac/role_manager_api.go b/rbac/role_manager_api.go
index 62612dd..2283a0d 100644
--- a/rbac/role_manager_api.go
+++ b/rbac/role_manager_api.go
@@ -15,6 +15,8 @@
 package rbac
 
 import (
+	"fmt"
+
 	"github.com/abichinger/fastac/util"
 	"github.com/abichinger/govaluate"
 )
@@ -53,6 +55,13 @@ type IDefaultRoleManager interface {
 func GenerateGFunction(rm IRoleManager) govaluate.ExpressionFunction {
 
 	return func(args ...interface{}) (interface{}, error) {
+		if len(args) < 2 {
+			return false, fmt.Errorf("role check: expected at least 2 arguments, but got %d", len(args))
+		}
+		if err := util.ValidateVariadicArgs(len(args), args...); err != nil {
+			return false, fmt.Errorf("role check: %s", err)
+		}
+
 		name1 := args[0].(string)
 		name2 := args[1].(string)
 
diff --git a/util/builtin_operators.go b/util/builtin_operators.go
index f6b7bcf..9bf0fc4 100755
--- a/util/builtin_operators.go
+++ b/util/builtin_operators.go
@@ -133,11 +133,19 @@ func GlobMatchFunc(args ...interface{}) (interface{}, error) {
 }
 
 func WrapMatchingFunc(fn MatchingFunc) govaluate.ExpressionFunction {
-	return func(args ...interface{}) (interface{}, error) {
+	pc := reflect.ValueOf(fn).Pointer()
+	fnName := runtime.FuncForPC(pc).Name()
+	fnSplitName := strings.Split(fnName, ".")
+
+	return func(args ...interface{}) (res interface{}, err error) {
+		// matching functions panic, if an argument is malformed
+		defer func() {
+			if r := recover(); r != nil {
+				res, err = false, fmt.Errorf("%s: %v", fnSplitName[len(fnSplitName)-1], r)
+			}
+		}()
+
 		if err := ValidateVariadicArgs(2, args...); err != nil {
-			pc := reflect.ValueOf(fn).Pointer()
-			fnName := runtime.FuncForPC(pc).Name()
-			fnSplitName := strings.Split(fnName, ".")
 			return false, fmt.Errorf("%s: %s", fnSplitName[len(fnSplitName)-1], err)
 		}
 
-- 
2.43.0


From cd9c3bb10bf483f83db0815fee9575114596694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 32/41] fix: ad-hoc matchers must not stay attached to the
 policy

Every request with its own matcher left an index of all rules and three
listeners behind, so each later rule change got slower and memory grew with
the number of requests.
---
 context.go               | 42 ++++++++++++++++++++++++++++++++++------
 enforcer.go              |  3 +++
 model/matcher/matcher.go | 19 +++++++++++++++---
 3 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/context.go b/context.go
index aa866ad..26d4668 100644
--- a/context.go
+++ b/context.go
@@ -23,14 +23,14 @@ func SetMatcher(matcher interface{}) ContextOption {
 			m, ok := ctx.model.GetMatcher(mType)
 			if !ok {
 				mDef := defs.NewMatcherDef("", mType)
-				m, err = ctx.model.BuildMatcherFromDef(mDef)
+				m, err = ctx.buildMatcher(mDef)
 				if err != nil {
 					return err
 				}
 			}
 			ctx.matcher = m
 		case *defs.MatcherDef:
-			m, err := ctx.model.BuildMatcherFromDef(mType)
+			m, err := ctx.buildMatcher(mType)
 			if err != nil {
 				return err
 			}
@@ -90,31 +90,61 @@ type Context struct {
 	rDef     *defs.RequestDef
 	matcher  m.IMatcher
 	effector e.IEffector
+
+	adhoc []m.IMatcher // matchers, which belong to this context
+}
+
+func (ctx *Context) buildMatcher(mDef *defs.MatcherDef) (m.IMatcher, error) {
+	matcher, err := ctx.model.BuildMatcherFromDef(mDef)
+	if err == nil {
+		ctx.adhoc = append(ctx.adhoc, matcher)
+	}
+	return matcher, err
+}
+
+// Release detaches the matchers, which were built for this context, from the model
+// The context must not be used afterwards
+func (ctx *Context) Release() {
+	for _, matcher := range ctx.adhoc {
+		if r, ok := matcher.(interface{ Release() }); ok {
+			r.Release()
+		}
+	}
+	ctx.adhoc = nil
 }
 
 func NewContext(model model.IModel, options ...ContextOption) (*Context, error) {
 	ctx := &Context{}
 	ctx.model = model
 
+	if err := ctx.apply(options); err != nil {
+		ctx.Release()
+		return nil, err
+	}
+
+	return ctx, nil
+}
+
+func (ctx *Context) apply(options []ContextOption) error {
 	for _, option := range options {
 		if err := option(ctx); err != nil {
-			return nil, err
+			return err
 		}
 	}
 
 	if ctx.rDef == nil {
 		if err := SetRequestDef("r")(ctx); err != nil {
-			return nil, err
+			return err
 		}
 	}
 	if ctx.matcher == nil {
 		if err := SetMatcher("m")(ctx); err != nil {
-			return nil, err
+			return err
 		}
 	}
 	if ctx.effector == nil {
 		_ = SetEffector("e")(ctx)
 	}
 
-	return ctx, nil
+	return nil
 }
diff --git a/enforcer.go b/enforcer.go
index 6250e60..e3fe2f6 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -268,6 +268,7 @@ func (e *Enforcer) Enforce(params ...interface{}) (bool, error) {
 	if err != nil {
 		return false, err
 	}
+	defer ctx.Release()
 	return e.EnforceWithContext(ctx, rvals...)
 }
 
@@ -300,6 +301,7 @@ func (e *Enforcer) Filter(params ...interface{}) ([][]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer ctx.Release()
 	return e.FilterWithContext(ctx, rvals...)
 }
 
@@ -317,6 +319,7 @@ func (e *Enforcer) RangeMatches(params []interface{}, fn func(rule []string) boo
 	if err != nil {
 		return err
 	}
+	defer ctx.Release()
 	return e.RangeMatchesWithContext(ctx, rvals, fn)
 }
 
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 0d7f388..927db2a 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -23,6 +23,7 @@ import (
 	p "github.com/abichinger/fastac/model/policy"
 	"github.com/abichinger/fastac/util"
 	"github.com/abichinger/govaluate"
+	em "github.com/vansante/go-event-emitter"
 )
 
 type MatcherNode struct {
@@ -102,6 +103,8 @@ type Matcher struct {
 	pDef     *defs.PolicyDef
 	policy   p.IPolicy
 	root     *MatcherNode
+
+	listeners map[em.EventType]*em.Listener
 }
 
 func NewMatcher(pDef *defs.PolicyDef, policy p.IPolicy, exprRoot *defs.MatcherStage) *Matcher {
@@ -110,29 +113,39 @@ func NewMatcher(pDef *defs.PolicyDef, policy p.IPolicy, exprRoot *defs.MatcherSt
 	m.policy = policy
 	m.exprRoot = exprRoot
 	m.root = NewMatcherNode([]string{""})
+	m.listeners = make(map[em.EventType]*em.Listener)
 
 	policy.Range(func(rule []string) bool {
 		m.addRule(rule)
 		return true
 	})
 
-	policy.AddListener(p.EVT_RULE_ADDED, func(arguments ...interface{}) {
+	m.listeners[p.EVT_RULE_ADDED] = policy.AddListener(p.EVT_RULE_ADDED, func(arguments ...interface{}) {
 		rule := arguments[0].([]string)
 		m.addRule(rule)
 	})
 
-	policy.AddListener(p.EVT_RULE_REMOVED, func(arguments ...interface{}) {
+	m.listeners[p.EVT_RULE_REMOVED] = policy.AddListener(p.EVT_RULE_REMOVED, func(arguments ...interface{}) {
 		rule := arguments[0].([]string)
 		m.removeRule(rule)
 	})
 
-	policy.AddListener(p.EVT_CLEARED, func(arguments ...interface{}) {
+	m.listeners[p.EVT_CLEARED] = policy.AddListener(p.EVT_CLEARED, func(arguments ...interface{}) {
 		m.root = NewMatcherNode([]string{""})
 	})
 
 	return m
 }
 
+// Release detaches the matcher from its policy
+// The matcher must not be used afterwards
+func (m *Matcher) Release() {
+	for event, listener := range m.listeners {
+		m.policy.RemoveListener(event, listener)
+	}
+	m.listeners = nil
+}
+
 func (m *Matcher) GetPolicyKey() string {
 	return m.pDef.GetKey()
 }
-- 
2.43.0


From de17e4738497d49827458ab854884e6b25d588d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 33/41] fix: cached match results must not be mixed up

Names containing "$$" shared cache entries with other names and patterns.
---
 rbac/domain_manager.go | 2 +-
 rbac/role_manager.go   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 87bd3d5..9f24e27 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -127,7 +127,7 @@ func (dm *DomainManager) isPattern(domain string) bool {
 }
 
 func (dm *DomainManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := dm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
diff --git a/rbac/role_manager.go b/rbac/role_manager.go
index 6a24f51..63a4057 100644
--- a/rbac/role_manager.go
+++ b/rbac/role_manager.go
@@ -15,7 +15,6 @@
 package rbac
 
 import (
-	"strings"
 	"sync"
 
 	"github.com/abichinger/fastac/util"
@@ -71,7 +70,7 @@ func redundantSource(domains []string) (source []string, ok bool) {
 }
 
 func (rm *RoleManager) match(str string, pattern string) bool {
-	cacheKey := strings.Join([]string{str, pattern}, "$$")
+	cacheKey := util.Hash([]string{str, pattern})
 	if v, has := rm.matchingFuncCache.Get(cacheKey); has {
 		return v.(bool)
 	} else {
-- 
2.43.0


From 556e4e0078f00077b480522d25a55ebc83a91bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 34/41] fix: the default logger must not be created by
 concurrent requests

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index f7858f5..d70759f 100644
--- a/log/log.go
+++ b/log/log.go
@@ -6,7 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
-var defaultLogger log.FieldLogger
+var defaultLogger log.FieldLogger = NullLogger()
 
 func NullLogger() log.FieldLogger {
 	log := log.New()
-- 
2.43.0


From 39945460dca211f5d953f1ac06c1672817afc97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 35/41] fix: alternatives of a matcher must not overwrite their
 remaining conditions

---
 model/defs/matcher_def.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 0178cad..881ed8a 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -192,7 +192,8 @@ func buildExprTree(node *MatcherStage, tokens []govaluate.ExpressionToken, and [
 		}
 		return buildExprTree(node, tokens[index+1:], and)
 	} else { // operator.Value == &&
-		return buildExprTree(node, tokens[:index], append(and, tokens[index+1:]))
+		// alternatives share and, so it must not be modified
+		return buildExprTree(node, tokens[:index], append(and[:len(and):len(and)], tokens[index+1:]))
 	}
 }
 
-- 
2.43.0


From ad6dacf4110c43e35db5379d2da3d9ad40cff171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 36/41] fix: values of a rule must be read by position,
 whatever its length

The effect of a rule without effect value was read from another value, and
grouping rules with sub-domains were matched by the wrong values.
---
 enforcer.go              | 2 +-
 model/defs/defs.go       | 9 +++++++++
 model/matcher/matcher.go | 4 ++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/enforcer.go b/enforcer.go
index e3fe2f6..e805b41 100644
--- a/enforcer.go
+++ b/enforcer.go
@@ -339,7 +339,7 @@ func (e *Enforcer) enforce(ctx *Context, rvals []interface{}) (bool, error) {
 
 	var eftErr error = nil
 	err := e.RangeMatchesWithContext(ctx, rvals, func(rule []string) bool {
-		effect := pDef.GetEft(rule)
+		effect := pDef.GetEft(pDef.Values(rule[1:]))
 
 		effects = append(effects, effect)
 		matches = append(matches, rule)
diff --git a/model/defs/defs.go b/model/defs/defs.go
index eaa2537..e9bd5e5 100644
--- a/model/defs/defs.go
+++ b/model/defs/defs.go
@@ -89,6 +89,15 @@ func (def *PolicyDef) Has(name string) bool {
 	return ok
 }
 
+// Values returns the values of a rule, which belong to an argument.
+// The rule has to be passed without key, it can have more values (e.g. sub-domains)
+func (def *PolicyDef) Values(rule []string) []string {
+	if n := len(def.args); len(rule) > n {
+		return rule[:n:n]
+	}
+	return rule
+}
+
 func (def *PolicyDef) GetEft(values []string) types.Effect {
 	eftArg := def.key + "_eft"
 	if def.Has(eftArg) {
diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 927db2a..420661c 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -157,7 +157,7 @@ func (m *Matcher) nodeKey(rule []string, stage *defs.MatcherStage) string {
 	if len(pArgs) == 0 || stage.IsLeafNode() || stage.HasEval() {
 		return util.Hash(rule)
 	}
-	values, err := m.pDef.GetParameters(rule, pArgs)
+	values, err := m.pDef.GetParameters(m.pDef.Values(rule), pArgs)
 	if err != nil {
 		return util.Hash(rule)
 	}
@@ -217,7 +217,7 @@ func (m *Matcher) rangeMatches(exprNode *defs.MatcherStage, rules map[string]*Ma
 	}
 
 	for _, child := range rules {
-		params.pvals = child.rule
+		params.pvals = m.pDef.Values(child.rule)
 		res, err := expr.Eval(params)
 		if err != nil {
 			return false, err
-- 
2.43.0


From 91ba5927743a0d0d0e0acff8f959473a73def732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 37/41] fix: domains which are the same text when joined must
 not hide each other

---
 rbac/domain_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rbac/domain_manager.go b/rbac/domain_manager.go
index 9f24e27..161da12 100644
--- a/rbac/domain_manager.go
+++ b/rbac/domain_manager.go
@@ -329,8 +329,7 @@ func (dm *DomainManager) GetDomains(name string) ([]string, error) {
 func (dm *DomainManager) getAllDomainsHelper() ([][]string, error) {
 	domainMap := make(map[string][]string)
 	dm.rangeLinks(dm.rmMap, func(name1, name2 string, domains ...string) bool {
-		domain := strings.Join(domains, "/")
-		domainMap[domain] = domains
+		domainMap[util.Hash(domains)] = domains // domains can contain any separator
 		return true
 	})
 	domains := [][]string{}
-- 
2.43.0


From 8c7670e7b6c5fc6ff41b57f0a5367d09fcd16af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:27 +0000
Subject: [PATCH 38/41] fix: a definition with an empty key is an error instead
 of a panic

---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index dd2af6a..c96d6bc 100644
--- a/model/model.go
+++ b/model/model.go
@@ -168,7 +168,7 @@ func (m *Model) SetDef(sec byte, key string, value string) error {
 	if !ok {
 		return fmt.Errorf(str.ERR_INVALID_SEC, sec)
 	}
-	if key[0] != secDef.keyPrefix {
+	if key == "" || key[0] != secDef.keyPrefix {
 		return fmt.Errorf(str.ERR_INVALID_KEY_PREFIX, secDef.name, secDef.keyPrefix)
 	}
 	if err := secDef.handler(m, key, value); err != nil {
-- 
2.43.0


From f7fc912386671ceec7d475e5e4d7a79fc098bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 39/41] fix: a model whose matchers need quotes can be loaded
 from its text

---
 model/defs/matcher_def.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/model/defs/matcher_def.go b/model/defs/matcher_def.go
index 881ed8a..cd451e4 100644
--- a/model/defs/matcher_def.go
+++ b/model/defs/matcher_def.go
@@ -259,6 +259,22 @@ func (def *MatcherDef) GetPolicyKey() string {
 }
 
 func (def *MatcherDef) String() string {
-	return fmt.Sprintf("%s = %s", def.key, def.expr)
+	return fmt.Sprintf("%s = %s", def.key, quoteValue(def.expr))
 
 }
+
+// quoteValue quotes a value, which would be changed by loading it from a model file:
+// # and ; start a comment, a trailing backslash continues the line,
+// and surrounding spaces and quotes are removed.
+func quoteValue(value string) string {
+	if value == "" || (!strings.ContainsAny(value, "#;\n") &&
+		!strings.ContainsAny(value[:1], "`'\"") &&
+		!strings.HasSuffix(value, `\`) &&
+		strings.TrimSpace(value) == value) {
+		return value
+	}
+	if strings.Contains(value, "`") && strings.Contains(value, "\n") {
+		return `"""` + value + `"""`
+	}
+	return "`" + value + "`"
+}
-- 
2.43.0


From 4f002d6bae7b3eb3525ed2c73f32ee40ef84a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 40/41] fix: a cache without capacity must stay empty instead
 of panicking

---
 util/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/cache.go b/util/cache.go
index 9cf5d20..3f7fab2 100644
--- a/util/cache.go
+++ b/util/cache.go
@@ -68,6 +68,9 @@ func (cache *LRUCache) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (cache *LRUCache) Put(key interface{}, value interface{}) {
+	if cache.capacity <= 0 {
+		return // there is no room for any entry
+	}
 	n, ok := cache.m[key]
 	if ok {
 		cache.remove(n, false)
-- 
2.43.0


From c7d0f7680c658b460c3714a484342f674617f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:17 +0000
Subject: [PATCH 41/41] fix: rules with missing values shared a matcher node
 with other rules

---
 model/matcher/matcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/matcher/matcher.go b/model/matcher/matcher.go
index 420661c..d5f3ca9 100644
--- a/model/matcher/matcher.go
+++ b/model/matcher/matcher.go
@@ -159,7 +159,7 @@ func (m *Matcher) nodeKey(rule []string, stage *defs.MatcherStage) string {
 	}
 	values, err := m.pDef.GetParameters(m.pDef.Values(rule), pArgs)
 	if err != nil {
-		return util.Hash(rule)
+		return "rule " + util.Hash(rule) // must differ from the key of any values
 	}
 	return util.Hash(values)
 }
-- 
2.43.0

