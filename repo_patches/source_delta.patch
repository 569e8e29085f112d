From 0dfa516435f51940a817ce8170a8c18ae5fdf417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 01/82] fix: accept integer ranges that contain exactly one
 integer

---
 number.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/number.go b/number.go
index 374dda9..32a0911 100644
--- a/number.go
+++ b/number.go
@@ -110,13 +110,15 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 
 	// If we are an integer type, round min and max to the nearest integers
 	if mustBeAnInteger {
-		// If min and max are both non-integer values and round to the same integer
-		if math.Floor(min) == math.Floor(max) {
+		ceilMin, floorMax := math.Ceil(min), math.Floor(max)
+
+		// If there is no integer left between min and max
+		if ceilMin > floorMax && min <= max {
 			return 0, 0, fmt.Errorf("minimum and maximum do not allow for any integers (min: %f, max: %f)", min, max)
 		}
 
-		min = math.Ceil(min)
-		max = math.Floor(max)
+		min = ceilMin
+		max = floorMax
 	}
 
 	// Validate min and max
-- 
2.43.0


From 0b1b69c32e4d7c8181237e5e5489da5336d444e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 02/82] fix: let multipleOf ranges include both of their ends

---
 number.go | 74 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/number.go b/number.go
index 32a0911..33f0574 100644
--- a/number.go
+++ b/number.go
@@ -23,7 +23,6 @@ const (
 	// Anything smaller than this and Golangs math.Floor and math.Ceil functions
 	// begin to misbehave due to floating point precision issues
 	infinitesimal = 0.1e-13
-	maxRoundFloat = 1e290 // Bound to slightly less than the max float64 value to avoid unserializable inf values
 
 	// Bound to slightly less than the max float64 value to avoid unserializable inf values
 	upperBound = math.MaxFloat64 / 1000
@@ -127,63 +126,80 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	}
 
 	// Validate multipleOf
-	if node.MultipleOf != nil {
+	if node.MultipleOf != nil && *node.MultipleOf != 0 {
 		multipleOf := *node.MultipleOf
 		if multipleOf < 0 {
 			return 0, 0, errors.New("multipleOf cannot be negative")
-		} else if multipleOf != 0 && multipleOf < infinitesimal {
+		} else if multipleOf < infinitesimal {
 			return 0, 0, fmt.Errorf("multipleOf must be at least %e", infinitesimal)
 		} else if mustBeAnInteger && math.Trunc(multipleOf) != multipleOf {
 			return 0, 0, errors.New("integer type cannot have a non-integer multipleOf")
 		}
 
-		multiplesInRange := countMultiplesInRange(min, max, multipleOf)
-
-		if multiplesInRange == 0 {
+		if countMultiplesInRange(min, max, multipleOf) == 0 {
 			return 0, 0, errors.New("minimum and maximum do not allow for any multiples of multipleOf")
 		}
 	}
 	return min, max, nil
 }
 
-func countMultiplesInRange(min float64, max float64, multiple float64) int {
-	if min == 0 {
-		return int(math.Floor(max / multiple))
+// Returns the value that is generated for the k-th multiple of the given number
+func multipleAt(k float64, multiple float64) float64 {
+	if math.Trunc(multiple) == multiple {
+		return k * multiple
+	}
+
+	result := k * multiple
+	if rounded := util.Round(result, multiple); !math.IsInf(rounded, 0) {
+		return rounded
 	}
 
-	return int(math.Floor(max/multiple)) - int(math.Floor(min/multiple))
+	return result
 }
 
-func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
-	multiplesInRange := countMultiplesInRange(min, max, multiple)
+// Returns the first and the last k for which multipleAt(k) is between min and max (both inclusive).
+// last is smaller than first if there is no such k.
+func multiplesInRange(min float64, max float64, multiple float64) (float64, float64) {
+	first := math.Ceil(min/multiple) - 1
+	last := math.Floor(max/multiple) + 1
 
-	if multiplesInRange == 0 {
-		return 0
+	// The divisions above can be off by one because of floating point errors
+	for i := 0; i < 3 && multipleAt(first, multiple) < min; i++ {
+		first++
+	}
+
+	for i := 0; i < 3 && multipleAt(last, multiple) > max; i++ {
+		last--
 	}
 
-	lowerBound := math.Floor(min/multiple) * multiple
-	randomMultiple := float64(rand.RandomInt(1, multiplesInRange)) * multiple
-	return lowerBound + randomMultiple
+	return first, last
 }
 
-func roundToInfinitesimal(f float64) float64 {
-	// Dividing by infinitesimal (1e-14) amplifies the value by 1e14.
-	// Skip rounding for values whose magnitude would overflow to ±Inf.
-	if math.IsInf(f, 0) || math.Abs(f) > maxRoundFloat {
-		return f
+func countMultiplesInRange(min float64, max float64, multiple float64) float64 {
+	first, last := multiplesInRange(min, max, multiple)
+	return math.Max(0, last-first+1)
+}
+
+func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
+	first, last := multiplesInRange(min, max, multiple)
+	if last < first {
+		return 0
 	}
-	return math.Round(f/infinitesimal) * infinitesimal
+
+	// Both ends of the range can be picked
+	k := first + math.Floor(rand.RandomFloat(0, last-first+1))
+	return multipleAt(math.Min(k, last), multiple)
 }
 
 func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	result := 0.0
 	if g.Type == generatorTypeInteger && g.MultipleOf != 0 {
-		result = float64(generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf))
+		result = generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf)
 	} else if g.Type == generatorTypeInteger && g.MultipleOf == 0 {
 		result = float64(math.Round(opts.Rand.RandomFloat(g.Min, g.Max)))
 	} else if g.Type == generatorTypeNumber && g.MultipleOf != 0 {
-		result = util.Round(generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf), g.MultipleOf)
+		result = generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf)
 	} else if g.Type == generatorTypeNumber && g.MultipleOf == 0 {
 		result = opts.Rand.RandomFloat(g.Min, g.Max)
 	}
@@ -200,14 +216,6 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return int(result)
 	}
 
-	// MultipleOf arithmetic can accumulate tiny floating-point errors that
-	// push the result just outside the min/max bounds. Snap to the nearest
-	// infinitesimal to eliminate them. Plain floats (no multipleOf) don't
-	// need this — and applying it would destroy sub-infinitesimal values.
-	if g.MultipleOf != 0 {
-		return roundToInfinitesimal(result)
-	}
-
 	return result
 }
 
-- 
2.43.0


From 2bacd841509f930818e638662457d88814a1d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 03/82] fix: keep exclusive bounds exclusive at large
 magnitudes

---
 not.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/not.go b/not.go
index 441274f..5923157 100644
--- a/not.go
+++ b/not.go
@@ -1048,6 +1048,13 @@ func addIfNotNilFloat64(value *float64, addition float64) *float64 {
 	}
 
 	newValue := *value + float64(addition)
+
+	// The addition is lost for values that are too large to represent it.
+	// Move on to the next representable value instead.
+	if newValue == *value && addition != 0 {
+		newValue = math.Nextafter(newValue, math.Inf(int(math.Copysign(1, addition))))
+	}
+
 	return &newValue
 }
 
-- 
2.43.0


From f6a73c0ccd1794667b77f9ba214d2e4eee62f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 04/82] fix: keep random floats within their bounds

---
 number.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 33f0574..ac09a5c 100644
--- a/number.go
+++ b/number.go
@@ -201,7 +201,8 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 	} else if g.Type == generatorTypeNumber && g.MultipleOf != 0 {
 		result = generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf)
 	} else if g.Type == generatorTypeNumber && g.MultipleOf == 0 {
-		result = opts.Rand.RandomFloat(g.Min, g.Max)
+		// Rounding errors must not move the value out of its bounds
+		result = math.Max(g.Min, math.Min(g.Max, opts.Rand.RandomFloat(g.Min, g.Max)))
 	}
 
 	// Edge case. Make sure 0's are always unsigned
-- 
2.43.0


From d4b628558f9547a825202857b95febfcfe5f17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 05/82] fix: do not exclude integers next to fractional
 exclusive bounds

---
 number.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/number.go b/number.go
index ac09a5c..8f9ba63 100644
--- a/number.go
+++ b/number.go
@@ -67,22 +67,26 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	var min float64 = math.Inf(-1)
 	var max float64 = math.Inf(1)
 
-	// For integers, exclusive bounds need an offset of 1 so that
-	// math.Ceil / math.Floor produce a value strictly inside the bound.
+	// For integers, exclusive bounds need an offset of 1 (from the integer on the
+	// excluded side of the bound) so that math.Ceil / math.Floor produce the closest
+	// value strictly inside the bound.
 	// For floats the tiny infinitesimal offset is sufficient.
 	exclusiveOffset := infinitesimal
+	exclusiveMinimum, exclusiveMaximum := node.ExclusiveMinimum, node.ExclusiveMaximum
 	if mustBeAnInteger {
 		exclusiveOffset = 1.0
+		exclusiveMinimum = applyIfNotNilFloat64(exclusiveMinimum, math.Floor)
+		exclusiveMaximum = applyIfNotNilFloat64(exclusiveMaximum, math.Ceil)
 	}
 
 	// Initial Validation
 	min = util.GetZeroIfNil(
-		util.MaxFloatPtr(node.Minimum, addIfNotNilFloat64(node.ExclusiveMinimum, exclusiveOffset)),
+		util.MaxFloatPtr(node.Minimum, addIfNotNilFloat64(exclusiveMinimum, exclusiveOffset)),
 		math.Inf(-1),
 	)
 
 	max = util.GetZeroIfNil(
-		util.MinFloatPtr(node.Maximum, addIfNotNilFloat64(node.ExclusiveMaximum, -exclusiveOffset)),
+		util.MinFloatPtr(node.Maximum, addIfNotNilFloat64(exclusiveMaximum, -exclusiveOffset)),
 		math.Inf(1),
 	)
 
@@ -143,6 +147,15 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	return min, max, nil
 }
 
+func applyIfNotNilFloat64(value *float64, apply func(float64) float64) *float64 {
+	if value == nil {
+		return nil
+	}
+
+	newValue := apply(*value)
+	return &newValue
+}
+
 // Returns the value that is generated for the k-th multiple of the given number
 func multipleAt(k float64, multiple float64) float64 {
 	if math.Trunc(multiple) == multiple {
-- 
2.43.0


From 20ab6f100a355900b8fea1fac3264b00409c4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 06/82] fix: do not overflow integers outside of the range of
 int

---
 number.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 8f9ba63..ab5b370 100644
--- a/number.go
+++ b/number.go
@@ -226,7 +226,8 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return 0.0
 	}
 
-	if g.Type == generatorTypeInteger {
+	// Every float outside of the range of int is integral already
+	if g.Type == generatorTypeInteger && math.Abs(result) < math.MaxInt {
 		return int(result)
 	}
 
-- 
2.43.0


From 218c5dbd63273af23982f8760260428e2a1695a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 07/82] fix: do not treat the legacy array form of items as an
 empty items schema

---
 json.go  | 9 +++++++--
 parse.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index fe5b301..8dd6368 100644
--- a/json.go
+++ b/json.go
@@ -86,8 +86,13 @@ func (i *itemsData) UnmarshalJSON(data []byte) error {
 		return nodeErr
 	}
 
-	i.Nodes = nodes
-	i.Node = node
+	// The value of the attempt that failed might still be partially populated
+	if nodeErr == nil {
+		i.Node = node
+	} else {
+		i.Nodes = nodes
+	}
+
 	return nil
 }
 
diff --git a/parse.go b/parse.go
index 41744f9..270c72b 100644
--- a/parse.go
+++ b/parse.go
@@ -475,7 +475,7 @@ func inferType(node schemaNode) string {
 	}
 
 	// Array Properties
-	hasArrayProps := (node.Items != nil && node.Items.Node != nil) ||
+	hasArrayProps := (node.Items != nil && (node.Items.Node != nil || node.Items.Nodes != nil)) ||
 		node.MinItems != nil ||
 		node.MaxItems != nil ||
 		node.Contains != nil ||
-- 
2.43.0


From ba297db087b46aabaf57af3c5a85488b285e7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 08/82] fix: honour a maxLength of 0

---
 string.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 42bef19..dcbe43e 100644
--- a/string.go
+++ b/string.go
@@ -78,7 +78,7 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("min/max length cannot be negative")
 	}
 
-	if minLength > maxLength && maxLength != 0 {
+	if minLength > maxLength && node.MaxLength != nil {
 		return nullGenerator{}, fmt.Errorf("minLength cannot be greater than maxLength")
 	}
 
@@ -88,6 +88,11 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("cannot have both pattern/format based builder and min/max length set at the same time")
 	}
 
+	// The only string without any characters (A generator MaxLength of 0 is unbounded)
+	if node.MaxLength != nil && maxLength == 0 {
+		return constGenerator{Value: ""}, nil
+	}
+
 	generator := stringGenerator{
 		Format:    stringFormat(util.GetZeroIfNil(node.Format, "")),
 		Pattern:   util.GetZeroIfNil(node.Pattern, ""),
-- 
2.43.0


From 7552823e65cdbc2e5068f40c8bd6cbcc4cafab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 09/82] fix: apply additionalItems and array bounds to legacy
 tuples

---
 array.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/array.go b/array.go
index 9cc53a2..9502578 100644
--- a/array.go
+++ b/array.go
@@ -44,7 +44,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	maxContains := util.GetZeroIfNil(node.MaxContains, 0)
 	minItems := util.GetZeroIfNil(node.MinItems, 0)
 	maxItems := util.GetZeroIfNil(node.MaxItems, 0)
-	prefixItems := util.GetZeroIfNil(node.PrefixItems, []schemaNode{})
+	prefixItems, _ := getTupleNodes(node)
 
 	if minContains == 0 && node.Contains != nil {
 		minContains = 1
@@ -76,11 +76,18 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	min := util.GetInt(minItems, minContains)
 	max := util.GetInt(maxItems, min+defaultOffset)
 
-	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
+	// Note additionalItems only has a meaning next to the legacy array form of items
+	hasLegacyTuple := node.Items != nil && node.Items.Nodes != nil
+	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) ||
+		(hasLegacyTuple && node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
 
 	// Force the generator to use only the tuple in the event that additional items
 	// are not allowed
 	if disallowedAdditionalItems {
+		if minItems > tupleLength {
+			return nullGenerator{}, fmt.Errorf("minItems must be less than or equal to the tuple length given additional items are not allowed (minItems: %d, tupleLength: %d)", minItems, tupleLength)
+		}
+
 		min = tupleLength
 		max = tupleLength
 	}
@@ -121,7 +128,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		UnevaluatedItemsGenerator: unevaluatedItemsGenerator,
 		DisallowUnevaluatedItems:  disallowUnevaluatedItems,
 
-		DisallowAdditional:       node.Items != nil && node.Items.DisallowAdditionalItems,
+		DisallowAdditional:       disallowedAdditionalItems,
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
@@ -137,25 +144,30 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 }
 
 func parseTupleGeneratorFromSchemaNode(node schemaNode, metadata *parserMetadata) ([]Generator, error) {
+	nodes, field := getTupleNodes(node)
+	return parseTupleGenerator(nodes, field, metadata)
+}
 
+// Returns the nodes of the tuple of an array along with the field that holds them
+func getTupleNodes(node schemaNode) ([]schemaNode, string) {
 	if node.PrefixItems != nil && len(*node.PrefixItems) != 0 {
-		return parseTupleGenerator(*node.PrefixItems, metadata)
+		return *node.PrefixItems, "prefixItems"
 		// Legacy support given "items" when passed as an array
 		// has the same meaning as "prefixItems"
-	} else if node.Items != nil && node.Items.Nodes != nil && len(*node.Items.Nodes) != 0 {
-		return parseTupleGenerator(*node.Items.Nodes, metadata)
+	} else if node.Items != nil && node.Items.Nodes != nil {
+		return *node.Items.Nodes, "items"
 	}
-	return nil, nil
+	return nil, ""
 }
 
-func parseTupleGenerator(nodes []schemaNode, metadata *parserMetadata) ([]Generator, error) {
+func parseTupleGenerator(nodes []schemaNode, field string, metadata *parserMetadata) ([]Generator, error) {
 	if len(nodes) == 0 {
 		return nil, nil
 	}
 
 	generators := []Generator{}
 	for i, item := range nodes {
-		refPath := fmt.Sprintf("/prefixItems/%d", i)
+		refPath := fmt.Sprintf("/%s/%d", field, i)
 		generator, err := metadata.ReferenceHandler.ParseNodeInScope(refPath, item, metadata)
 		if err != nil {
 			err = fmt.Errorf("error parsing tuple generator: %w", err)
-- 
2.43.0


From f80906fb2df4ee56d60e903f80abc397b1f6bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 10/82] fix: do not require minItems to be at least minContains

---
 array.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/array.go b/array.go
index 9502578..21d16cb 100644
--- a/array.go
+++ b/array.go
@@ -59,10 +59,6 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
-	if err := assertLowerUpperBound(minContains, minItems, "minContains", "minItems"); err != nil {
-		return nullGenerator{}, err
-	}
-
 	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
 		return nullGenerator{}, err
 	}
-- 
2.43.0


From f17799da63efeece31c7544e57e0c709b5db9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 11/82] fix: honour a maxItems of 0

---
 array.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 21d16cb..9fb63eb 100644
--- a/array.go
+++ b/array.go
@@ -69,6 +69,12 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
 	}
 
+	// Bounds of 0 are otherwise handled as not set
+	isAlwaysEmpty := node.MaxItems != nil && maxItems == 0
+	if isAlwaysEmpty && (minItems > 0 || minContains > 0) {
+		return nullGenerator{}, fmt.Errorf("maxItems does not allow for any items (minItems: %d, minContains: %d)", minItems, minContains)
+	}
+
 	min := util.GetInt(minItems, minContains)
 	max := util.GetInt(maxItems, min+defaultOffset)
 
@@ -124,7 +130,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		UnevaluatedItemsGenerator: unevaluatedItemsGenerator,
 		DisallowUnevaluatedItems:  disallowUnevaluatedItems,
 
-		DisallowAdditional:       disallowedAdditionalItems,
+		DisallowAdditional:       disallowedAdditionalItems || isAlwaysEmpty,
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
-- 
2.43.0


From 77721b4ffeca76076bdd686e9ea9e8045cc5d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 12/82] fix: stop adding items once unique ones run out and
 minItems is reached

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 9fb63eb..5cbb773 100644
--- a/array.go
+++ b/array.go
@@ -295,7 +295,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
 		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
 
-		if !ok && i > minItems {
+		if !ok && len(arrayData) >= minItems {
 			// If we are unable to generate a unique item, and we have already satisfied the minimum
 			// bail out early
 			break
-- 
2.43.0


From 68bab41e2236a0c6bb21546d8f08fa10e80a2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 13/82] fix: consider uniqueItems for tuple items

---
 array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 5cbb773..4d97eb0 100644
--- a/array.go
+++ b/array.go
@@ -233,7 +233,8 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	if tupleLength != 0 {
 		for _, generator := range g.TupleGenerators {
-			arrayData = append(arrayData, generator.Generate(opts))
+			item, _ := g.generateConsideringUnique(opts, generator, arrayData)
+			arrayData = append(arrayData, item)
 		}
 	}
 
-- 
2.43.0


From f9eb308bec2b1177108315c25d20bb260eb53d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 14/82] fix: apply patternProperties and additionalProperties
 to required properties

---
 object.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/object.go b/object.go
index 635f96b..8a05abf 100644
--- a/object.go
+++ b/object.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -167,14 +168,12 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate Required Properties
 	generatedValues := make(map[string]interface{})
 	for _, key := range g.Required {
-		// If no properties are defined, generate a nil value
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else {
+		if generator := g.generatorForProperty(key); generator != nil {
 			// Generate the required property
-			generatedValues[key] = g.Properties[key].Generate(opts)
+			generatedValues[key] = generator.Generate(opts)
+		} else {
+			// If nothing constrains the property, generate a placeholder value
+			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
 		}
 	}
 
@@ -257,6 +256,22 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return generatedValues
 }
 
+// Returns the generator for the value of a property with a known name.
+// Returns nil if there are no constraints on the value.
+func (g objectGenerator) generatorForProperty(key string) Generator {
+	if generator, ok := g.Properties[key]; ok {
+		return generator
+	}
+
+	for pattern, generator := range g.PatternProperties {
+		if matched, err := regexp.MatchString(pattern, key); err == nil && matched {
+			return generator
+		}
+	}
+
+	return g.AdditionalProperties
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From df3ed5169682fe1b613cdfd5d068a8b6ad219f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 15/82] fix: only count properties that are not required as
 optional

---
 object.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/object.go b/object.go
index 8a05abf..fe3a67c 100644
--- a/object.go
+++ b/object.go
@@ -179,7 +179,12 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.UniqString(append(g.Required, funk.Keys(g.Properties).([]string)...))
+	optionalKeys := []string{}
+	for key := range g.Properties {
+		if _, exists := generatedValues[key]; !exists {
+			optionalKeys = append(optionalKeys, key)
+		}
+	}
 
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
@@ -189,8 +194,8 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		max = min + max
 	}
 
-	minimumExtrasToGenerate := util.MaxInt(0, min-len(g.Required))
-	maximumExtrasToGenerate := util.MaxInt(0, max-len(g.Required))
+	minimumExtrasToGenerate := util.MaxInt(0, min-len(generatedValues))
+	maximumExtrasToGenerate := util.MaxInt(0, max-len(generatedValues))
 
 	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate)
 
@@ -203,13 +208,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate any optional keys
 	for _, key := range optionalKeysToGenerate {
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else {
-			generatedValues[key] = g.Properties[key].Generate(opts)
-		}
+		generatedValues[key] = g.Properties[key].Generate(opts)
 	}
 
 	generatorTarget -= len(optionalKeysToGenerate)
-- 
2.43.0


From 5e1f02b48068d5f0ec081247588c0062d89f2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 16/82] fix: report required properties that
 additionalProperties does not allow

---
 object.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/object.go b/object.go
index fe3a67c..41bc242 100644
--- a/object.go
+++ b/object.go
@@ -71,6 +71,14 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
 	}
 
+	if additionalProperties.IsFalse {
+		for _, name := range requiredProperties {
+			if _, ok := properties[name]; !ok && !matchesAnyPattern(node.PatternProperties, name) {
+				return nullGenerator{}, fmt.Errorf("required property '%s' is not allowed given it is not defined and additional properties are not allowed", name)
+			}
+		}
+	}
+
 	patternProperties, patternPropertiesRegex := parsePatternProperties(node, metadata)
 
 	objectGenerator := objectGenerator{
@@ -90,6 +98,16 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	return objectGenerator, nil
 }
 
+func matchesAnyPattern(patternProperties *map[string]schemaNode, name string) bool {
+	for pattern := range util.GetZeroIfNil(patternProperties, map[string]schemaNode{}) {
+		if matched, err := regexp.MatchString(pattern, name); err == nil && matched {
+			return true
+		}
+	}
+
+	return false
+}
+
 func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Generator {
 	properties := make(map[string]Generator)
 	if node.Properties == nil {
-- 
2.43.0


From d43b6e98e956e70119bdce432f86e8c23046cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 17/82] fix: do not overwrite properties with pattern,
 additional or filler properties

---
 object.go | 64 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/object.go b/object.go
index 41bc242..a37cfff 100644
--- a/object.go
+++ b/object.go
@@ -236,14 +236,14 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Failing that generate any fallback properties
 	if len(g.PatternProperties) > 0 {
 		for i := 0; i < generatorTarget; i++ {
-			regex, value := g.GeneratePatternProperty(opts)
-			generatedValues[regex] = value
+			g.generateUnusedPatternProperty(opts, generatedValues)
 		}
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
 		for i := 0; i < generatorTarget; i++ {
-			generatedValues[fmt.Sprintf("additional_%d", i)] = g.AdditionalProperties.Generate(opts)
+			name := g.unusedPropertyName("additional", generatedValues)
+			generatedValues[name] = g.AdditionalProperties.Generate(opts)
 		}
 	} else {
 		for i := 0; i < generatorTarget; i++ {
@@ -258,21 +258,32 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// In the event the number of generated parameters due to config options
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
-	if len(generatedValues) < min {
-		generator := g.FallbackGenerator
-		if g.AdditionalProperties != nil {
-			generator = g.AdditionalProperties
-		}
-
-		for i := len(generatedValues); i < min; i++ {
-			generatedValues[fmt.Sprintf("min_filler_%d", i)] = generator.Generate(opts)
+	for !g.DisallowAdditionalProperties && len(generatedValues) < min {
+		name := g.unusedPropertyName("min_filler", generatedValues)
+		generator := g.generatorForProperty(name)
+		if generator == nil {
+			generator = g.FallbackGenerator
 		}
 
+		generatedValues[name] = generator.Generate(opts)
 	}
 
 	return generatedValues
 }
 
+// Returns a name for an additional property that is neither defined nor in use yet
+func (g objectGenerator) unusedPropertyName(prefix string, generatedValues map[string]interface{}) string {
+	for i := 0; ; i++ {
+		name := fmt.Sprintf("%s_%d", prefix, i)
+		_, used := generatedValues[name]
+		_, defined := g.Properties[name]
+
+		if !used && !defined {
+			return name
+		}
+	}
+}
+
 // Returns the generator for the value of a property with a known name.
 // Returns nil if there are no constraints on the value.
 func (g objectGenerator) generatorForProperty(key string) Generator {
@@ -289,21 +300,28 @@ func (g objectGenerator) generatorForProperty(key string) Generator {
 	return g.AdditionalProperties
 }
 
-func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
-	if len(g.PatternProperties) == 0 {
-		return "", nil
-	}
-
+// Generates a pattern property with a name that is neither defined nor in use yet (if one can be found)
+func (g objectGenerator) generateUnusedPatternProperty(opts *GeneratorOptions, generatedValues map[string]interface{}) {
 	availableRegexes := funk.Keys(g.PatternProperties).([]string)
-	targetRegex := opts.Rand.StringChoice(&availableRegexes)
-	targetRegexGenerator := g.PatternPropertiesRegex[targetRegex]
-	targetGenerator := g.PatternProperties[targetRegex]
 
-	if targetGenerator == nil || targetRegexGenerator == nil {
-		return "", nil
-	}
+	for i := 0; i < opts.MaximumUniqueGeneratorAttempts; i++ {
+		targetRegex := opts.Rand.StringChoice(&availableRegexes)
+		targetRegexGenerator := g.PatternPropertiesRegex[targetRegex]
+		targetGenerator := g.PatternProperties[targetRegex]
+
+		if targetGenerator == nil || targetRegexGenerator == nil {
+			continue
+		}
 
-	return targetRegexGenerator.Generate(), targetGenerator.Generate(opts)
+		name := targetRegexGenerator.Generate()
+		_, used := generatedValues[name]
+		_, defined := g.Properties[name]
+
+		if !used && !defined {
+			generatedValues[name] = targetGenerator.Generate(opts)
+			return
+		}
+	}
 }
 
 func (g objectGenerator) String() string {
-- 
2.43.0


From 433763b4a2375c7ec8babf8f0631087db35474bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 18/82] fix: honour maxProperties if it is 0 or less than the
 default minimum

---
 object.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index a37cfff..96bc518 100644
--- a/object.go
+++ b/object.go
@@ -24,6 +24,7 @@ type (
 
 		MinProperties int
 		MaxProperties int
+		AlwaysEmpty   bool
 		Required      []string
 	}
 )
@@ -85,6 +86,7 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		Required:      requiredProperties,
 		MinProperties: minProperties,
 		MaxProperties: maxProperties,
+		AlwaysEmpty:   node.MaxProperties != nil && maxProperties == 0,
 
 		Properties:             parseProperties(node, metadata),
 		PatternProperties:      patternProperties,
@@ -183,6 +185,11 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return nil
 	}
 
+	// A MaxProperties of 0 is otherwise handled as not set
+	if g.AlwaysEmpty {
+		return map[string]interface{}{}
+	}
+
 	// Generate Required Properties
 	generatedValues := make(map[string]interface{})
 	for _, key := range g.Required {
@@ -208,7 +215,10 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
 
 	// Make sure the max is always greater than the min
-	if max < min {
+	if max < min && g.MaxProperties != 0 {
+		// The default minimum must not exceed the maximum of the schema
+		min = max
+	} else if max < min {
 		max = min + max
 	}
 
-- 
2.43.0


From c02b67df28dac5e7cb8fd0934a50d6bd1fb03940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 19/82] fix: never let the default array bounds override the
 bounds of the schema

---
 array.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index 4d97eb0..12719f5 100644
--- a/array.go
+++ b/array.go
@@ -76,7 +76,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	min := util.GetInt(minItems, minContains)
-	max := util.GetInt(maxItems, min+defaultOffset)
+	max := maxItems
 
 	// Note additionalItems only has a meaning next to the legacy array form of items
 	hasLegacyTuple := node.Items != nil && node.Items.Nodes != nil
@@ -257,7 +257,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
-	maxItems := util.GetInt(g.MaxItems, opts.DefaultArrayMaxItems)
+	maxItems := util.GetInt(g.MaxItems, minItems+opts.DefaultArrayMaxItems)
 
 	// Handle cases where no min items are handled
 	minContains := 0
@@ -277,8 +277,9 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 		arrayData = append(arrayData, item)
 	}
 
+	// The default minimum must not exceed the maximum of the schema
 	if maxItems < minItems {
-		maxItems = minItems + opts.DefaultArrayMaxItems
+		minItems = maxItems
 	}
 
 	// Compute how many items we can generate over the minimum satisfiable set of data)
-- 
2.43.0


From 05ad5b49bed9640f48f4cfdcc84ad849f3882df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 20/82] fix: enforce maxContains

---
 array.go | 63 +++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/array.go b/array.go
index 12719f5..9a667d5 100644
--- a/array.go
+++ b/array.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/ryanolee/go-chaff/internal/util"
+	jsonschemaV6 "github.com/santhosh-tekuri/jsonschema/v6"
 	"github.com/thoas/go-funk"
 )
 
@@ -18,7 +19,11 @@ type (
 
 		UniqueItems bool
 
+		// Only set if the number of items matching "contains" is limited by "maxContains"
+		ContainsSchema *jsonschemaV6.Schema
+
 		MinContains int
+		MaxContains int
 		MinItems    int
 		MaxItems    int
 
@@ -46,7 +51,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	maxItems := util.GetZeroIfNil(node.MaxItems, 0)
 	prefixItems, _ := getTupleNodes(node)
 
-	if minContains == 0 && node.Contains != nil {
+	if node.MinContains == nil && node.Contains != nil {
 		minContains = 1
 	}
 
@@ -59,6 +64,11 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	// A bound of 0 is otherwise handled as not set
+	if node.Contains != nil && node.MaxContains != nil && minContains > maxContains {
+		return nullGenerator{}, fmt.Errorf("minContains must be less than or equal to maxContains (minContains: %d, maxContains: %d)", minContains, maxContains)
+	}
+
 	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
 		return nullGenerator{}, err
 	}
@@ -111,6 +121,13 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("error parsing contains generator: %w", err)
 	}
 
+	var containsSchema *jsonschemaV6.Schema = nil
+	if node.Contains != nil && node.MaxContains != nil {
+		if containsSchema, err = metadata.SchemaManager.ParseSchemaNode(metadata, *node.Contains, "contains"); err != nil {
+			return nullGenerator{}, fmt.Errorf("error compiling contains schema to enforce maxContains: %w", err)
+		}
+	}
+
 	if tupleGenerators, err = parseTupleGeneratorFromSchemaNode(node, metadata); err != nil {
 		return nullGenerator{}, fmt.Errorf("error parsing tuple generator: %w", err)
 	}
@@ -134,7 +151,9 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
+		MaxContains:       maxContains,
 		ContainsGenerator: containsGenerator,
+		ContainsSchema:    containsSchema,
 
 		MinItems: min,
 		MaxItems: max,
@@ -259,10 +278,14 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
 	maxItems := util.GetInt(g.MaxItems, minItems+opts.DefaultArrayMaxItems)
 
-	// Handle cases where no min items are handled
 	minContains := 0
 	if g.ContainsGenerator != nil {
-		minContains = util.GetInt(g.MinContains, 1)
+		minContains = g.MinContains
+	}
+
+	// Tuple items that match "contains" count towards the maximum already
+	if g.ContainsSchema != nil {
+		minContains = util.MaxInt(0, minContains-g.countContains(arrayData))
 	}
 
 	// Generate any required "contains" items
@@ -295,10 +318,10 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate the remaining items up to a random number
 	// (This might skew the distribution of the length of the array)
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
-		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
+		item, ok := g.generateConsideringMaxContains(opts, itemGen, arrayData)
 
 		if !ok && len(arrayData) >= minItems {
-			// If we are unable to generate a unique item, and we have already satisfied the minimum
+			// If we are unable to generate a unique item (or one that maxContains allows), and we have already satisfied the minimum
 			// bail out early
 			break
 		}
@@ -318,6 +341,36 @@ func (g arrayGenerator) String() string {
 	return fmt.Sprintf("ArrayGenerator{items: %s, tuple: [%s] }", g.ItemGenerator, tupleString)
 }
 
+// Returns the number of items that match the "contains" schema
+func (g arrayGenerator) countContains(arrayData []interface{}) int {
+	count := 0
+	for _, item := range arrayData {
+		if g.ContainsSchema.Validate(item) == nil {
+			count++
+		}
+	}
+
+	return count
+}
+
+// Will attempt to generate an item that does not match the "contains" schema if "maxContains" does not allow any more of them
+func (g arrayGenerator) generateConsideringMaxContains(opts *GeneratorOptions, itemGenerator Generator, arrayData []interface{}) (interface{}, bool) {
+	item, ok := g.generateConsideringUnique(opts, itemGenerator, arrayData)
+	if g.ContainsSchema == nil || g.countContains(arrayData) < g.MaxContains {
+		return item, ok
+	}
+
+	for i := 0; i < opts.MaximumUniqueGeneratorAttempts; i++ {
+		if !ok || g.ContainsSchema.Validate(item) != nil {
+			return item, ok
+		}
+
+		item, ok = g.generateConsideringUnique(opts, itemGenerator, arrayData)
+	}
+
+	return item, false
+}
+
 // Will attempt to generate a unique item if the uniqueItems flag is set
 func (g arrayGenerator) generateConsideringUnique(opts *GeneratorOptions, itemGenerator Generator, arrayData []interface{}) (interface{}, bool) {
 	if !g.UniqueItems {
-- 
2.43.0


From fc12a323dd7b545ebc45bc467501c10ec45f0727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 21/82] fix: marshal permissive boolean schemas as true

---
 json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 8dd6368..af48e50 100644
--- a/json.go
+++ b/json.go
@@ -144,7 +144,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 		return json.Marshal(s.Schema)
 	}
 
-	return []byte("null"), nil
+	return []byte("true"), nil
 }
 
 // Standard json.Unmarshal treats {"const": null} and an absent "const" key
-- 
2.43.0


From 70662a52b94d06d262d3e789b50f8fb46e94596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 22/82] fix: do not panic on an empty list of types

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 270c72b..0b8f53e 100644
--- a/parse.go
+++ b/parse.go
@@ -372,7 +372,7 @@ func parseSchemaNode(node schemaNode, metadata *parserMetadata) (Generator, erro
 	}
 
 	// Handle multiple type nodes
-	if node.Type != nil && node.Type.MultipleTypes != nil {
+	if node.Type != nil && len(node.Type.MultipleTypes) > 0 {
 		return parseMultipleType(node, metadata)
 	}
 
-- 
2.43.0


From a6e70f33c3471e87fa8c250883a9ae21f7f2a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 23/82] fix: respect the regex options for pattern properties

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 0b8f53e..1d51439 100644
--- a/parse.go
+++ b/parse.go
@@ -434,7 +434,7 @@ func withDefaultParseOptions(opts ParserOptions) ParserOptions {
 	}
 
 	parseOpts.RegexStringOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
-	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
+	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexPatternPropertyOptions, defaultRegexOpts)
 
 	return parseOpts
 }
-- 
2.43.0


From 5126f5e777327f9f964cc18909c1b7bc93ea357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 24/82] fix: do not modify the options passed to
 ParseSchemaFile

---
 parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 1d51439..cfae2a7 100644
--- a/parse.go
+++ b/parse.go
@@ -212,11 +212,13 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	}
 
 	// Resolve relative path base for fetching external documents unless already set
-	if opts.RelativeTo == "" {
-		opts.RelativeTo = "file://" + path
+	// (On a copy, given the caller might use the same options to parse other schemas)
+	fileOpts := *opts
+	if fileOpts.RelativeTo == "" {
+		fileOpts.RelativeTo = "file://" + path
 	}
 
-	return ParseSchema(data, opts)
+	return ParseSchema(data, &fileOpts)
 }
 
 // Parses a Json Schema file at the given path with default options. If there is an error reading the file or
-- 
2.43.0


From c33a552b070aadcdda06800a153db5597482f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 25/82] fix: resolve references into the root document while
 merging

---
 document.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index e17130a..8b340e0 100644
--- a/document.go
+++ b/document.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"net/url"
 	"os"
-	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -85,14 +84,14 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 			opts.RelativeTo = "file://" + cwd + "/"
 		}
 
-		resolvedRootDocumentId = filepath.Join(opts.RelativeTo, rootDocumentId)
+		resolvedRootDocumentId = opts.RelativeTo + rootDocumentId
 	} else {
 		resolvedRootDocumentId = opts.RelativeTo
 	}
 
 	resolver := &documentResolver{
 		// Setup the root document
-		documentCurrentlyBeingParsedId: opts.RelativeTo,
+		documentCurrentlyBeingParsedId: resolvedRootDocumentId,
 		parsedExternalDocuments: map[string]bool{
 			resolvedRootDocumentId: true,
 		},
-- 
2.43.0


From bd94b8f0c8a02cabcc4425839314382d22d3dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 26/82] fix: resolve references to sub schemas and tuple items
 while merging

---
 reference_path.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/reference_path.go b/reference_path.go
index 7c4a2bc..01d9dc0 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -22,13 +22,13 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 		return nil, fmt.Errorf("[%s] No schema node found", resolvedPath)
 	}
 
-	pathPart, path := getReferencePathToken(refPath)
-	resolvedPath = resolvedPath + "/" + pathPart
-
-	if path == "" {
+	if refPath == "" {
 		return node, nil
 	}
 
+	pathPart, path := getReferencePathToken(refPath)
+	resolvedPath = resolvedPath + "/" + pathPart
+
 	switch pathPart {
 	// Object
 	case "properties":
@@ -36,14 +36,14 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 	case "patternProperties":
 		return resolveReferenceProperty(node.PatternProperties, path, resolvedPath)
 	case "additionalProperties":
-		if node.AdditionalProperties.IsFalse {
-			return nil, fmt.Errorf("[%s] No schema node for additional properties", resolvedPath)
-		}
-
-		return resolveSubReferencePath(node.AdditionalProperties.Schema, path, resolvedPath)
+		return resolveFalseOrSchema(node.AdditionalProperties, path, resolvedPath)
 
 	// Array
 	case "items":
+		if node.Items == nil {
+			return nil, fmt.Errorf("[%s] No items defined", resolvedPath)
+		}
+
 		part, _ := getReferencePathToken(path)
 		match, err := regexp.MatchString(`^\d+$`, part)
 		if !match || err != nil {
@@ -93,8 +93,8 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 }
 
 func resolveFalseOrSchema(node *schemaNodeOrFalse, path string, resolvedPath string) (*schemaNode, error) {
-	if node.IsFalse {
-		return nil, fmt.Errorf("[%s] No schema node for %s node is false", resolvedPath, path)
+	if node == nil || node.IsFalse {
+		return nil, fmt.Errorf("[%s] No schema node for %s node is false or not defined", resolvedPath, path)
 	}
 
 	return resolveSubReferencePath(node.Schema, path, resolvedPath)
@@ -129,7 +129,7 @@ func resolveReferenceSlice(nodes *[]schemaNode, path string, resolvedPath string
 		return nil, fmt.Errorf("[%s] Invalid array index (Must be a number) %s", resolvedPath, part)
 	}
 
-	if len(*nodes) > partInt || partInt < 0 {
+	if partInt >= len(*nodes) || partInt < 0 {
 		return nil, fmt.Errorf("[%s] Array index out of bounds %d", resolvedPath, partInt)
 	}
 
-- 
2.43.0


From cf1b3ec996cc52a75488ec6f01758af320781654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 27/82] fix: resolve references with escaped names

---
 document.go       |  3 +++
 object.go         |  4 ++--
 reference_path.go | 27 +++++++++++++++++++++++++++
 root.go           |  4 ++--
 walk.go           |  2 +-
 5 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/document.go b/document.go
index 8b340e0..520a874 100644
--- a/document.go
+++ b/document.go
@@ -141,6 +141,7 @@ func (r *documentResolver) ResolveDocumentIdAndPath(ref string) (string, string,
 	if !hasPath || path == "" {
 		path = "#"
 	}
+	path = normaliseReferencePath(path)
 
 	// If we have no document, it is a local or relative reference and can be handled as such
 	if !hasDocument || documentID == "" {
@@ -239,6 +240,7 @@ func (r *documentResolver) HandleDeferredReferenceResolution(ref string, metadat
 	if !hasPath || path == "" {
 		path = "#"
 	}
+	path = normaliseReferencePath(path)
 
 	// If we have no document, it is a local or relative reference and can be handled as such
 	if !hasDocument || documentID == "" {
@@ -280,6 +282,7 @@ func (r *documentResolver) ResolvePath(metadata *parserMetadata, ref string) (*s
 	if !hasPath || path == "" {
 		path = "#"
 	}
+	path = normaliseReferencePath(path)
 
 	// If we have no document, it is a local or relative reference and can be handled as such
 	if !hasDocument || documentID == "" {
diff --git a/object.go b/object.go
index 96bc518..5e1ae6b 100644
--- a/object.go
+++ b/object.go
@@ -118,7 +118,7 @@ func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Gener
 
 	ref := metadata.ReferenceHandler
 	for name, prop := range *node.Properties {
-		refPath := fmt.Sprintf("/properties/%s", name)
+		refPath := fmt.Sprintf("/properties/%s", escapeReferencePathToken(name))
 		propGenerator, err := ref.ParseNodeInScope(refPath, prop, metadata)
 		if err != nil {
 			propGenerator = nullGenerator{}
@@ -155,7 +155,7 @@ func parsePatternProperties(node schemaNode, metadata *parserMetadata) (map[stri
 	ref := metadata.ReferenceHandler
 
 	for regex, property := range *node.PatternProperties {
-		refPath := fmt.Sprintf("/patternProperties/%s", regex)
+		refPath := fmt.Sprintf("/patternProperties/%s", escapeReferencePathToken(regex))
 
 		// Parse the schema node
 		propGenerator, err := ref.ParseNodeInScope(refPath, property, metadata)
diff --git a/reference_path.go b/reference_path.go
index 01d9dc0..319060a 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -16,6 +17,31 @@ func resolveReferencePath(node *schemaNode, refPath string) (*schemaNode, error)
 	return resolveSubReferencePath(node, refPath, "")
 }
 
+// Escapes the name of a property / definition for the use in a reference path.
+// "%" needs to be escaped on top of the json pointer escapes given reference paths are url fragments
+func escapeReferencePathToken(token string) string {
+	return strings.NewReplacer("~", "~0", "/", "~1", "%", "%25").Replace(token)
+}
+
+func unescapeReferencePathToken(token string) string {
+	if decoded, err := url.PathUnescape(token); err == nil {
+		token = decoded
+	}
+
+	return strings.NewReplacer("~1", "/", "~0", "~").Replace(token)
+}
+
+// Normalises a reference path so that there is one way of writing down every path
+// (e.g. "#/$defs/%66oo" -> "#/$defs/foo")
+func normaliseReferencePath(refPath string) string {
+	tokens := strings.Split(refPath, "/")
+	for i, token := range tokens {
+		tokens[i] = escapeReferencePathToken(unescapeReferencePathToken(token))
+	}
+
+	return strings.Join(tokens, "/")
+}
+
 // Recursively resolve a reference path based on a schema node (Internally used by resolveReferencePath)
 func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath string) (*schemaNode, error) {
 	if node == nil {
@@ -107,6 +133,7 @@ func resolveReferenceProperty(nodes *map[string]schemaNode, path string, resolve
 	}
 
 	propertyName, path := getReferencePathToken(path)
+	propertyName = unescapeReferencePathToken(propertyName)
 	resolvedPath = resolvedPath + "/" + propertyName
 	node, ok := (*nodes)[propertyName]
 	if !ok {
diff --git a/root.go b/root.go
index adb0591..b784111 100644
--- a/root.go
+++ b/root.go
@@ -52,14 +52,14 @@ func parseDefinitions(path string, metadata *parserMetadata, definitions map[str
 	ref := metadata.ReferenceHandler
 	generators := make(map[string]Generator)
 	for key, value := range definitions {
-		refPath := fmt.Sprintf("/%s/%s", path, key)
+		refPath := fmt.Sprintf("/%s/%s", path, escapeReferencePathToken(key))
 
 		// Pass a synthetic schema node whose Ref points to this definition
 		// so that ParseNodeInScope tracks it on the resolution stack. This
 		// ensures any $ref back to this definition is detected as a cycle
 		// during merge, preventing infinite recursion when the definition
 		// references itself.
-		defPath := fmt.Sprintf("#/%s/%s", path, key)
+		defPath := fmt.Sprintf("#/%s/%s", path, escapeReferencePathToken(key))
 		generator, _ := ref.ParseNodeInScope(refPath, value, metadata, schemaNode{Ref: &defPath})
 
 		generators[key] = generator
diff --git a/walk.go b/walk.go
index a6f0dc5..541f4bf 100644
--- a/walk.go
+++ b/walk.go
@@ -9,7 +9,7 @@ func walkSchema(node map[string]interface{}, path string, visit func(node map[st
 	visit(node, path)
 
 	for key, value := range node {
-		childPath := path + "/" + key
+		childPath := path + "/" + escapeReferencePathToken(key)
 
 		if obj, ok := value.(map[string]interface{}); ok {
 			walkSchema(obj, childPath, visit)
-- 
2.43.0


From 213ded6acdba180ffb52b23fb3e4858140a7b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 28/82] fix: keep literal dots of character classes in patterns

---
 regex.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/regex.go b/regex.go
index c5f964b..c9fd5dc 100644
--- a/regex.go
+++ b/regex.go
@@ -6,14 +6,40 @@ import (
 	"github.com/ryanolee/go-chaff/internal/regen"
 )
 
-const fullStringLiteral = "[~{FULL_STOP_LITERAL}~]"
-
 func newRegexGenerator(pattern string, opts *regen.GeneratorArgs) (regen.Generator, error) {
 	if opts.SuppressRandomBytes {
-		pattern = strings.ReplaceAll(pattern, "\\.", fullStringLiteral)
-		pattern = strings.ReplaceAll(pattern, ".", "\\w")
-		pattern = strings.ReplaceAll(pattern, fullStringLiteral, "\\.")
+		pattern = suppressRandomBytes(pattern)
 	}
 
 	return regen.NewGenerator(pattern, opts)
 }
+
+// Replaces every "any character" dot of a pattern (so no escaped dots or the ones in character classes) with "\w"
+func suppressRandomBytes(pattern string) string {
+	var sb strings.Builder
+	escaped, inClass := false, false
+	classStart := ""
+
+	for i, char := range pattern {
+		if char == '.' && !escaped && !inClass {
+			sb.WriteString("\\w")
+			continue
+		}
+
+		sb.WriteRune(char)
+
+		if escaped {
+			escaped = false
+		} else if char == '\\' {
+			escaped = true
+		} else if char == '[' && !inClass {
+			inClass = true
+			classStart = pattern[:i+1]
+		} else if char == ']' && inClass && pattern[:i] != classStart && pattern[:i] != classStart+"^" {
+			// A "]" that comes first in a character class is part of the class
+			inClass = false
+		}
+	}
+
+	return sb.String()
+}
-- 
2.43.0


From e4a5236b61fa22425026d0bc622cc671377b48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 29/82] fix: only allow files within the allowed paths to be
 fetched

---
 fetchers.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 2d47ae3..cae6fa8 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -208,12 +208,12 @@ func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	for _, allowedPath := range allowedPaths {
-		matched, err := filepath.Match(filepath.Join(allowedPath, "*"), path)
+		isWithin, err := isWithinDirectory(allowedPath, path)
 		if err != nil {
 			return false, fmt.Errorf("failed to match path '%s' against allowed path '%s': %w", path, allowedPath, err)
 		}
 
-		if !matched {
+		if isWithin {
 			return false, nil
 		}
 	}
@@ -221,6 +221,16 @@ func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	return true, nil
 }
 
+// Returns true if the path is the directory itself or anything below it
+func isWithinDirectory(directory string, path string) (bool, error) {
+	diff, err := filepath.Rel(directory, path)
+	if err != nil {
+		return false, err
+	}
+
+	return diff != ".." && !strings.HasPrefix(diff, ".."+string(filepath.Separator)), nil
+}
+
 func getRealPath(path string) (string, error) {
 	realPath, err := filepath.Abs(path)
 	if err != nil {
-- 
2.43.0


From d97db150ab45684f6b887781dbd247390313d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 30/82] fix: compare real paths when checking for files outside
 of the cwd

---
 fetchers.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index cae6fa8..2532d23 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -202,8 +202,13 @@ func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
 		return false, fmt.Errorf("failed to get current working directory: %w", err)
 	}
 
-	diff, err := filepath.Rel(cwd, path)
-	return strings.Contains(diff, ".."), err
+	// The path is fully resolved already
+	if realCwd, err := filepath.EvalSymlinks(cwd); err == nil {
+		cwd = realCwd
+	}
+
+	isWithin, err := isWithinDirectory(cwd, path)
+	return !isWithin, err
 }
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
-- 
2.43.0


From 72b70d34f1e95253d241bd841001a1e382ed7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 31/82] fix: accept allowed hosts that are given as urls

---
 fetchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetchers.go b/fetchers.go
index 2532d23..7e1c0ab 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -41,7 +41,7 @@ func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInter
 	for _, host := range parserConfig.AllowedHosts {
 		parsedUrl, err := url.Parse(host)
 
-		if parsedUrl != nil && err != nil {
+		if err == nil && parsedUrl.Host != "" {
 			allowedHosts = append(allowedHosts, parsedUrl.Host)
 		} else {
 			allowedHosts = append(allowedHosts, host)
-- 
2.43.0


From b0fb8b3f38562995b0c1c2ceed71b0d6e97c29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 32/82] fix: apply the http fetch policy to redirects

---
 fetchers.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 7e1c0ab..47c2318 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -31,6 +31,8 @@ type (
 	}
 )
 
+const maxRedirects = 10
+
 func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInterface, error) {
 	allowedHosts := []string{}
 
@@ -74,21 +76,39 @@ func (f *httpDocumentFetcher) resolveDocumentId(relativeTo string, ref string) (
 		resolvedUrl = baseUrl.ResolveReference(parsedUrl)
 	}
 
+	if err := f.assertAllowed(resolvedUrl); err != nil {
+		return "", err
+	}
+
+	return resolvedUrl.String(), nil
+}
+
+func (f *httpDocumentFetcher) assertAllowed(resolvedUrl *url.URL) error {
 	if !f.allowInsecure && resolvedUrl.Scheme != "https" {
-		return "", fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", parsedUrl.Scheme, ref)
+		return fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", resolvedUrl.Scheme, resolvedUrl)
 	}
 
 	if len(f.allowedHosts) > 0 {
 		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {
-			return "", fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
+			return fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
 		}
 	}
 
-	return resolvedUrl.String(), nil
+	return nil
+}
+
+// Redirects must not lead to anything that could not be fetched directly
+func (f *httpDocumentFetcher) checkRedirect(req *http.Request, via []*http.Request) error {
+	if len(via) >= maxRedirects {
+		return fmt.Errorf("stopped after %d redirects", maxRedirects)
+	}
+
+	return f.assertAllowed(req.URL)
 }
 
 func (f *httpDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resp, err := http.Get(resolvedPath)
+	client := http.Client{CheckRedirect: f.checkRedirect}
+	resp, err := client.Get(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch URL '%s': %w", resolvedPath, err)
 	}
-- 
2.43.0


From dda1beab300823892fd3415a359794f49daac521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 33/82] fix: pick the fetcher of relative references by the
 document they are in

---
 document.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index 520a874..b3a541b 100644
--- a/document.go
+++ b/document.go
@@ -527,13 +527,13 @@ func (r *documentResolver) getFetcherForRef(documentId string) (documentFetcherI
 	}
 
 	if url.Scheme == "" {
-		url, err = url.Parse(r.documentCurrentlyBeingParsedId)
+		url, err = url.Parse(r.GetCurrentScope())
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.documentCurrentlyBeingParsedId, err)
+			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.GetCurrentScope(), err)
 		}
 
 		if url.Scheme == "" {
-			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.documentCurrentlyBeingParsedId)
+			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.GetCurrentScope())
 		}
 
 	}
-- 
2.43.0


From a10128d2e9399bdad46dc72940532407d7a3ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 34/82] fix: respect the fetch flags for schemas read from
 stdin in the cli

---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index a59bc6c..c654ecb 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -74,7 +74,7 @@ func main() {
 		checkErr(err)
 	} else if hasStdin() {
 		stdin := readStdin()
-		generator, err = chaff.ParseSchemaWithDefaults(stdin)
+		generator, err = chaff.ParseSchema(stdin, parserOptions)
 		checkErr(err)
 	} else {
 		checkErr(fmt.Errorf("no schema specified! (On Stdin or through the --file flag)"))
-- 
2.43.0


From afb3351afca51096e2344ced3590534a7149aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 35/82] fix: do not allow every host to be fetched from without
 allowed hosts in the cli

---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index c654ecb..932e88e 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -122,7 +122,7 @@ func main() {
 }
 
 func getHttpDocumentFetcherOptionsFromFlags(allowedHosts *string, allowInsecure *bool) chaff.HTTPFetchOptions {
-	if (allowedHosts != nil && *allowedHosts == "") && (allowInsecure == nil || !*allowInsecure) {
+	if allowedHosts == nil || *allowedHosts == "" {
 		return chaff.HTTPFetchOptions{}
 	}
 
-- 
2.43.0


From 3bfe623f2199e7b5772849066dda75c17f6eea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 36/82] fix: allow patterns to be generated concurrently

---
 internal/regen/regen.go |  2 +-
 internal/regen/rng.go   | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/regen/regen.go b/internal/regen/regen.go
index 0afa8f5..c3c783d 100644
--- a/internal/regen/regen.go
+++ b/internal/regen/regen.go
@@ -154,7 +154,7 @@ func (a *GeneratorArgs) initialize() error {
 		seed = a.RngSource.Int63()
 	}
 	rngSource := xorShift64Source(seed)
-	a.rng = rand.New(&rngSource)
+	a.rng = rand.New(&lockedSource{source: &rngSource})
 
 	// unicode groups only allowed with Perl
 	if (a.Flags&syntax.UnicodeGroups) == syntax.UnicodeGroups && (a.Flags&syntax.Perl) != syntax.Perl {
diff --git a/internal/regen/rng.go b/internal/regen/rng.go
index 74194b2..02e7ef6 100644
--- a/internal/regen/rng.go
+++ b/internal/regen/rng.go
@@ -16,6 +16,11 @@ limitations under the License.
 
 package regen
 
+import (
+	"math/rand"
+	"sync"
+)
+
 /*
 The default Source implementation is very slow to seed. Replaced with a
 64-bit xor-shift source from http://vigna.di.unimi.it/ftp/papers/xorshift.pdf.
@@ -46,3 +51,22 @@ func (src *xorShift64Source) Int63() int64 {
 
 	return int64((*src * 2685821657736338717) >> 1)
 }
+
+// Source that can be shared between goroutines, given that generators (and by extension their source) can be
+// used concurrently
+type lockedSource struct {
+	mutex  sync.Mutex
+	source rand.Source
+}
+
+func (src *lockedSource) Seed(seed int64) {
+	src.mutex.Lock()
+	defer src.mutex.Unlock()
+	src.source.Seed(seed)
+}
+
+func (src *lockedSource) Int63() int64 {
+	src.mutex.Lock()
+	defer src.mutex.Unlock()
+	return src.source.Int63()
+}
-- 
2.43.0


From 8bf9531625cb5d15deac6329236eaa7c30dcc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 37/82] fix: merge multipleOf to the lowest common multiple

---
 internal/util/util.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 5eb7fee..aab4cf3 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -210,11 +210,16 @@ func FindHcf(a *float64, b *float64) *float64 {
 
 	// Normalise both to integers
 	scale := math.Pow(10, float64(math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b))))
-	intA := *a * scale
-	intB := *b * scale
+	intA := math.Round(*a * scale)
+	intB := math.Round(*b * scale)
 
-	// Otherwise multiply them
-	*result = (intA * intB) / scale
+	// Otherwise use the lowest value both of them divide
+	divisor, remainder := intA, intB
+	for remainder != 0 {
+		divisor, remainder = remainder, math.Mod(divisor, remainder)
+	}
+
+	*result = (intA / divisor * intB) / scale
 	return result
 }
 
-- 
2.43.0


From 4ae48c90751615f1ef546e351568935687b8977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 38/82] fix: keep closed and legacy tuples while merging

---
 merge.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index c71727d..759f4ff 100644
--- a/merge.go
+++ b/merge.go
@@ -447,7 +447,15 @@ func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *m
 
 // Merges items data (Legacy support for "items" merging not supported)
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
-	if nodeData == nil || nodeData.Node == nil {
+	if nodeData == nil {
+		return mergedData
+	}
+
+	if mergedData == nil {
+		return nodeData
+	}
+
+	if nodeData.Node == nil && !nodeData.DisallowAdditionalItems {
 		return mergedData
 	}
 
-- 
2.43.0


From dcf9c5ec80903c4b558a02804b43dddf4886ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 39/82] fix: do not panic on patterns with wide character
 classes or large open repeats

---
 internal/regen/char_class.go         |  6 +++---
 internal/regen/internal_generator.go | 13 +++++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/regen/char_class.go b/internal/regen/char_class.go
index 8f3d843..f76763d 100644
--- a/internal/regen/char_class.go
+++ b/internal/regen/char_class.go
@@ -65,7 +65,7 @@ func parseCharClass(runes []rune) *tCharClass {
 		end := runes[i*2+1]
 
 		// indicates a negative class
-		if start == 0 {
+		if start == 0 && end > 0 {
 			// doesn't make sense to generate null bytes, so all ranges must start at
 			// no less than 1.
 			start = 1
@@ -96,8 +96,8 @@ func (class *tCharClass) String() string {
 }
 
 func newCharClassRange(start rune, end rune) tCharClassRange {
-	if start < 1 {
-		panic("char class range cannot contain runes less than 1")
+	if start < 0 {
+		panic("char class range cannot contain runes less than 0")
 	}
 
 	size := end - start + 1
diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index 8bcf5ad..6b00885 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -19,8 +19,8 @@ package regen
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"regexp/syntax"
+	"unicode"
 )
 
 // generatorFactory is a function that creates a random string generator from a regular expression AST.
@@ -133,7 +133,7 @@ func opAnyCharNotNl(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenera
 	if args.LimitToAscii {
 		charClass = newCharClass(32, 93) // Limit to printable ASCII characters.
 	} else {
-		charClass = newCharClass(0, rune(math.MaxInt32))
+		charClass = parseCharClass([]rune{0, '\n' - 1, '\n' + 1, unicode.MaxRune})
 	}
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
@@ -162,6 +162,10 @@ func opRepeat(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, e
 // classes that respect it.
 func opCharClass(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpCharClass)
+	if len(regexp.Rune) == 0 {
+		return nil, generatorError(nil, "character class /%s/ does not contain any characters", regexp)
+	}
+
 	charClass := parseCharClass(regexp.Rune)
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
@@ -269,6 +273,11 @@ func createRepeatingGenerator(regexp *syntax.Regexp, genArgs *GeneratorArgs, min
 	}
 	if max == noBound {
 		max = int(genArgs.MaxUnboundedRepeatCount)
+
+		// The pattern might ask for more repeats than that
+		if max < min {
+			max = min
+		}
 	}
 
 	return &internalGenerator{regexp.String(), func() string {
-- 
2.43.0


From cc25fc0f863e00d0749ed96e2ecad8ed55895592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 40/82] fix: do not add items that unevaluatedItems does not
 allow

---
 array.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/array.go b/array.go
index 9a667d5..73ddcc7 100644
--- a/array.go
+++ b/array.go
@@ -134,6 +134,11 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	disallowUnevaluatedItems := node.UnevaluatedItems != nil && node.UnevaluatedItems.IsFalse
 
+	// Without any schema for items after the tuple all of them would be unevaluated
+	if disallowUnevaluatedItems && itemGenerator == nil && additionalItemGenerator == nil && containsGenerator == nil && minItems > tupleLength {
+		return nullGenerator{}, fmt.Errorf("minItems must be less than or equal to the tuple length given unevaluated items are not allowed (minItems: %d, tupleLength: %d)", minItems, tupleLength)
+	}
+
 	if !disallowUnevaluatedItems && node.UnevaluatedItems != nil && node.UnevaluatedItems.Schema != nil {
 		if unevaluatedItemsGenerator, err = metadata.ReferenceHandler.ParseNodeInScope("/unevaluatedItems", *node.UnevaluatedItems.Schema, metadata); err != nil {
 			return nullGenerator{}, fmt.Errorf("error parsing unevaluated items generator: %w", err)
@@ -278,6 +283,14 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
 	maxItems := util.GetInt(g.MaxItems, minItems+opts.DefaultArrayMaxItems)
 
+	// Only items matching "contains" may follow the tuple if there is no schema for them and unevaluated items are not allowed
+	if g.DisallowUnevaluatedItems && g.ItemGenerator == nil && g.AdditionalItemsGenerator == nil {
+		minItems = g.MinItems
+		if g.ContainsGenerator != nil {
+			itemGen = g.ContainsGenerator
+		}
+	}
+
 	minContains := 0
 	if g.ContainsGenerator != nil {
 		minContains = g.MinContains
-- 
2.43.0


From 3c87091157b35a4207bfd91596ec82c728225dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 41/82] fix: keep the validators of sub schemas with similar
 paths apart

---
 schema.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 9f7ac42..47106d5 100644
--- a/schema.go
+++ b/schema.go
@@ -14,6 +14,9 @@ type (
 	schemaManager struct {
 		rootSchemaCompiler *jsonschemaV6.Compiler
 		documentResolver   *documentResolver
+
+		// Number of sub schemas compiled so far. Used to keep their paths distinct
+		subSchemaCount int
 	}
 
 	internalOnlyLoader struct {
@@ -45,11 +48,16 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 // Parses a schema node and creates a subdocument in the root schema compiler
 // allowing for reference resolutions back into the original schema from any given sub-schema fragment
 func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node schemaNode, field string) (*jsonschemaV6.Schema, error) {
-	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s", parserMetadata.ReferenceHandler.CurrentPath, field))
+	// Different paths might be the same once normalised
+	sm.subSchemaCount++
+	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s/%d", parserMetadata.ReferenceHandler.CurrentPath, field, sm.subSchemaCount))
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
 	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
 
-	sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode)
+	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
+		return nil, err
+	}
+
 	return sm.CompilePath(currentPath)
 }
 
-- 
2.43.0


From dbc07f61627a6d6b1b4ed050b67ccb2777eec70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 42/82] fix: intersect types while merging

---
 json.go  |  8 ++++++++
 merge.go | 38 ++++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/json.go b/json.go
index af48e50..4251279 100644
--- a/json.go
+++ b/json.go
@@ -36,6 +36,14 @@ func newMultipleTypeFromSlice(types []string) multipleType {
 	return multipleType
 }
 
+func (m *multipleType) types() []string {
+	if m.SingleType != "" {
+		return []string{m.SingleType}
+	}
+
+	return m.MultipleTypes
+}
+
 func (m *multipleType) UnmarshalJSON(data []byte) error {
 	if len(data) == 0 {
 		return nil
diff --git a/merge.go b/merge.go
index 759f4ff..4bcf638 100644
--- a/merge.go
+++ b/merge.go
@@ -38,7 +38,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(mergedNode.Type, node.Type)
+		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
@@ -427,21 +427,39 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	return newNode, nil
 }
 
-func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
-	if nodeType == nil {
+// mergeSchemaTypes intersects the types of two nodes
+func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
+	if nodeType == nil || len(nodeType.types()) == 0 {
 		return mergedSchemaType
 	}
 
-	mergedType := util.GetZeroIfNil(mergedSchemaType, multipleType{})
+	if mergedSchemaType == nil || len(mergedSchemaType.types()) == 0 {
+		return nodeType
+	}
+
+	intersection := []string{}
+	for _, left := range mergedSchemaType.types() {
+		for _, right := range nodeType.types() {
+			shared := right
+			if left == typeInteger && right == typeNumber {
+				// Every integer is a number too
+				shared = typeInteger
+			} else if left != right && !(left == typeNumber && right == typeInteger) {
+				continue
+			}
+
+			if !funk.ContainsString(intersection, shared) {
+				intersection = append(intersection, shared)
+			}
+		}
+	}
 
-	if nodeType.SingleType != "" {
-		mergedType.SingleType = nodeType.SingleType
-		mergedType.MultipleTypes = nil
-	} else if len(nodeType.MultipleTypes) > 0 {
-		mergedType.MultipleTypes = nodeType.MultipleTypes
-		mergedType.SingleType = ""
+	if len(intersection) == 0 {
+		warnConfigMergeError(metadata, "type", fmt.Errorf("type intersection is empty left: %v, right: %v", mergedSchemaType.types(), nodeType.types()))
+		return nodeType
 	}
 
+	mergedType := newMultipleTypeFromSlice(intersection)
 	return &mergedType
 }
 
-- 
2.43.0


From 4d45bd667da68959d5c53e2198d09c440973eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 43/82] fix: satisfy every anyOf and oneOf list while merging

---
 combination.go | 11 +++++++++++
 merge.go       | 17 +++++++++++++++--
 not.go         |  2 ++
 parse.go       |  7 ++++++-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/combination.go b/combination.go
index 5f18c12..cde6b0e 100644
--- a/combination.go
+++ b/combination.go
@@ -32,6 +32,8 @@ type (
 //   - oneOf Does not actually validate that only one of the schemas is valid.
 func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	ref := metadata.ReferenceHandler
+	node.OneOf, node.mergedOneOf = nextAlternatives(node.OneOf, node.mergedOneOf)
+	node.AnyOf, node.mergedAnyOf = nextAlternatives(node.AnyOf, node.mergedAnyOf)
 	oneOf := util.GetZeroIfNil(node.OneOf, []schemaNode{})
 	anyOf := util.GetZeroIfNil(node.AnyOf, []schemaNode{})
 
@@ -113,6 +115,15 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	}, nil
 }
 
+// Returns the list of alternatives to handle next along with the ones still to be handled after that
+func nextAlternatives(alternatives *[]schemaNode, rest [][]schemaNode) (*[]schemaNode, [][]schemaNode) {
+	if alternatives == nil && len(rest) > 0 {
+		return &rest[0], rest[1:]
+	}
+
+	return alternatives, rest
+}
+
 func (g combinationGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	if opts.ShouldCutoff() {
diff --git a/merge.go b/merge.go
index 4bcf638..dac76de 100644
--- a/merge.go
+++ b/merge.go
@@ -55,8 +55,8 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
 
 		// Merge combinators
-		mergedNode.OneOf = util.MergeSlicePtrs(mergedNode.OneOf, node.OneOf)
-		mergedNode.AnyOf = util.MergeSlicePtrs(mergedNode.AnyOf, node.AnyOf)
+		mergedNode.OneOf, mergedNode.mergedOneOf = mergeAlternatives(mergedNode.OneOf, mergedNode.mergedOneOf, node.OneOf, node.mergedOneOf)
+		mergedNode.AnyOf, mergedNode.mergedAnyOf = mergeAlternatives(mergedNode.AnyOf, mergedNode.mergedAnyOf, node.AnyOf, node.mergedAnyOf)
 		mergedNode.AllOf = util.MergeSlicePtrs(mergedNode.AllOf, node.AllOf)
 
 		// Merge conditionals
@@ -306,6 +306,19 @@ func mergeNot(mergedNode schemaNode, node schemaNode) schemaNode {
 	return mergedNode
 }
 
+// mergeAlternatives merges the anyOf or oneOf lists of two nodes. The lists must be processed
+// independently because anyOf(A) AND anyOf(B) ≠ anyOf(A + B), so all but the first list are collected separately.
+func mergeAlternatives(mergedList *[]schemaNode, mergedRest [][]schemaNode, nodeList *[]schemaNode, nodeRest [][]schemaNode) (*[]schemaNode, [][]schemaNode) {
+	rest := append([][]schemaNode{}, mergedRest...)
+	if mergedList == nil {
+		mergedList = nodeList
+	} else if nodeList != nil {
+		rest = append(rest, *nodeList)
+	}
+
+	return mergedList, append(rest, nodeRest...)
+}
+
 // flattenResidualAllOf iteratively flattens any allOf that survived the main
 // merge loop (from inline schemas that weren't resolved through $ref). This
 // guarantees callers always receive a node with allOf fully absorbed.
diff --git a/not.go b/not.go
index 5923157..0daac27 100644
--- a/not.go
+++ b/not.go
@@ -188,6 +188,8 @@ func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (sc
 	}
 	newNode.OneOf = node.OneOf
 	newNode.AnyOf = node.AnyOf
+	newNode.mergedOneOf = node.mergedOneOf
+	newNode.mergedAnyOf = node.mergedAnyOf
 	newNode.Ref = node.Ref
 	newNode.Defs = node.Defs
 	newNode.Definitions = node.Definitions
diff --git a/parse.go b/parse.go
index cfae2a7..fef407b 100644
--- a/parse.go
+++ b/parse.go
@@ -171,6 +171,11 @@ type (
 		// (not(A) AND not(B) is NOT the same as not(merge(A, B))).
 		mergedNot []*schemaNode
 
+		// Used to keep track of further anyOf / oneOf lists that have been merged into this node.
+		// A value has to satisfy each of the lists so they can not be concatenated.
+		mergedAnyOf [][]schemaNode
+		mergedOneOf [][]schemaNode
+
 		// Internal map used to keep track of constraints that need to be applied to this node during parsing
 		constraints *constraintCollection
 	}
@@ -349,7 +354,7 @@ func parseSchemaNode(node schemaNode, metadata *parserMetadata) (Generator, erro
 	}
 
 	// Handle combination nodes
-	if node.OneOf != nil || node.AnyOf != nil {
+	if node.OneOf != nil || node.AnyOf != nil || len(node.mergedOneOf) > 0 || len(node.mergedAnyOf) > 0 {
 		return parseCombination(node, metadata)
 	}
 
-- 
2.43.0


From 90e7788c07c5ae1c38d266fd786f7994ae5a7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 44/82] fix: only require properties once after merging

---
 merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merge.go b/merge.go
index dac76de..36e1833 100644
--- a/merge.go
+++ b/merge.go
@@ -374,6 +374,10 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 
 	// Simple slice properties
 	baseNode.Required = util.MergeSlicePtrs(baseNode.Required, otherNode.Required)
+	if baseNode.Required != nil {
+		required := funk.UniqString(*baseNode.Required)
+		baseNode.Required = &required
+	}
 
 	// Simple boolean properties
 	warnIfBothSetAndAreDifferent(metadata, "uniqueItems", baseNode.UniqueItems, otherNode.UniqueItems)
-- 
2.43.0


From 7d060c384be79c2fbd06bb8d1d4f85378992a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 45/82] fix: resolve references by the base uri of their
 document and report unknown documents

---
 document.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/document.go b/document.go
index b3a541b..1ed65e9 100644
--- a/document.go
+++ b/document.go
@@ -104,10 +104,7 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 
 	// Collect $id aliases from the root document tree so that relative
 	// $ref values (e.g. $ref: "color") can be resolved without I/O.
-	baseURI := resolvedRootDocumentId
-	if rootDocument.Id != nil && isAbsoluteURI(*rootDocument.Id) {
-		baseURI = *rootDocument.Id
-	}
+	baseURI := documentBaseURI(resolvedRootDocumentId, rootDocument)
 
 	// Merge into existing idAliases
 	for resolvedId, alias := range collectSubSchemaIds(baseURI, resolvedRootDocumentId, rootDocument) {
@@ -331,10 +328,7 @@ func (r *documentResolver) addDocument(id string, node *schemaNode) {
 	r.parsedExternalDocuments[id] = false
 
 	// Collect $id aliases from the new document tree.
-	baseURI := id
-	if node.Id != nil && isAbsoluteURI(*node.Id) {
-		baseURI = *node.Id
-	}
+	baseURI := documentBaseURI(id, node)
 	for resolvedId, alias := range collectSubSchemaIds(baseURI, id, node) {
 		if _, exists := r.idAliases[resolvedId]; !exists {
 			r.idAliases[resolvedId] = alias
@@ -372,9 +366,6 @@ func collectSubSchemaIds(baseURI string, documentId string, node *schemaNode) ma
 			return
 		}
 		baseAtPath[path] = resolved
-		if path == "" {
-			return // root $id is the document identity, not an alias
-		}
 		if _, exists := result[resolved]; exists {
 			return
 		}
@@ -384,6 +375,16 @@ func collectSubSchemaIds(baseURI string, documentId string, node *schemaNode) ma
 	return result
 }
 
+// documentBaseURI returns the URI that references of a document are relative to:
+// The absolute $id of the document or otherwise where the document is located.
+func documentBaseURI(documentId string, document *schemaNode) string {
+	if document != nil && document.Id != nil && isAbsoluteURI(*document.Id) {
+		return *document.Id
+	}
+
+	return documentId
+}
+
 // nearestBaseURI walks up the JSON pointer path to find the closest ancestor
 // that established a base URI via $id.
 func nearestBaseURI(baseAtPath map[string]string, path string) string {
@@ -484,16 +485,22 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 func (r *documentResolver) resolveDocumentRef(documentID string, refPath string) (string, string, error) {
 	// Check $id alias table first — resolves bare-name refs like "color"
 	// to the real document + JSON pointer path with no I/O.
-	resolved := resolveRelativeURI(r.GetCurrentScope(), documentID)
+	scope := r.GetCurrentScope()
+	resolved := resolveRelativeURI(documentBaseURI(scope, r.documents[scope]), documentID)
 	if resolved != "" {
 		if alias, exists := r.idAliases[resolved]; exists {
 			return alias.documentId, composeJsonPointerPaths(alias.path, refPath), nil
 		}
 	}
 
+	// Documents that are known already can be referred to by their ID (e.g. rewritten references)
+	if _, exists := r.documents[documentID]; exists {
+		return documentID, refPath, nil
+	}
+
 	// No alias found — fall back to I/O-based fetchers.
 	if r.HasNoFetchers() {
-		return r.GetCurrentScope(), refPath, nil
+		return "", "", fmt.Errorf("document '%s' is not part of the schema and fetching documents is not enabled", documentID)
 	}
 
 	fetcher, err := r.getFetcherForRef(documentID)
-- 
2.43.0


From 72a3145e95ed11b405b686798bf4340547aa3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 46/82] fix: resolve references of compiled sub schemas against
 the document they belong to

---
 schema.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/schema.go b/schema.go
index 47106d5..3cb3261 100644
--- a/schema.go
+++ b/schema.go
@@ -3,7 +3,6 @@ package chaff
 import (
 	"fmt"
 	"regexp"
-	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/santhosh-tekuri/jsonschema/v6"
@@ -20,6 +19,7 @@ type (
 	}
 
 	internalOnlyLoader struct {
+		documentResolver *documentResolver
 	}
 )
 
@@ -33,7 +33,7 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 
 	// To prevent external references from being inadvertently loaded or files from the local filesystem
 	// unless they are explicitly added to the schema manager by the upper level parser
-	jsonSchemaCompiler.UseLoader(internalOnlyLoader{})
+	jsonSchemaCompiler.UseLoader(internalOnlyLoader{documentResolver: resolver})
 
 	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), util.UnmarshalJsonStringToMap(string(schemaJson))); err != nil {
 		return nil, err
@@ -73,14 +73,15 @@ func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 	case map[string]interface{}:
 		if ref, ok := v["$ref"]; ok {
 			if refStr, ok := ref.(string); ok {
-				if strings.Contains(refStr, "://") {
-					// External cross-document refs (full URLs) can't be resolved
+				documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(refStr)
+				if _, documentLoaded := sm.documentResolver.documents[documentId]; err != nil || !documentLoaded {
+					// Cross-document refs to documents that have not been loaded can't be resolved
 					// by the internal-only compiler. Strip them so the sub-schema
 					// becomes permissive for that part. The go-chaff parser handles
 					// cross-document resolution separately at the parse level.
 					delete(v, "$ref")
 				} else {
-					v["$ref"] = sm.documentResolver.GetCurrentScope() + refStr
+					v["$ref"] = documentId + path
 				}
 			}
 		}
@@ -103,5 +104,9 @@ func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error)
 }
 
 func (l internalOnlyLoader) Load(url string) (any, error) {
+	if document, ok := l.documentResolver.documents[url]; ok {
+		return util.UnmarshalJsonStringToMap(util.MarshalJsonToString(document)), nil
+	}
+
 	return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation", url)
 }
-- 
2.43.0


From fb868fba391c0474c1d7b0934e745e43907dfe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 47/82] fix: fetch every document at most once

---
 document.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 1ed65e9..f46322b 100644
--- a/document.go
+++ b/document.go
@@ -16,6 +16,7 @@ import (
 type (
 	documentResolver struct {
 		documents                        map[string]*schemaNode
+		failedDocuments                  map[string]error
 		externalDocumentsThatNeedParsing []string
 
 		documentCurrentlyBeingParsedId string
@@ -98,6 +99,7 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 		documents: map[string]*schemaNode{
 			resolvedRootDocumentId: rootDocument,
 		},
+		failedDocuments:  make(map[string]error),
 		documentFetchers: documentFetchers,
 		idAliases:        make(map[string]idAlias),
 	}
@@ -462,6 +464,15 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 		return nil, fmt.Errorf("invalid $ref format, must contain document, ref given '%s'", ref)
 	}
 
+	// Documents are only ever fetched once
+	if document, loaded := r.documents[documentID]; loaded {
+		return document, nil
+	}
+
+	if err, failed := r.failedDocuments[documentID]; failed {
+		return nil, err
+	}
+
 	fetcher, err := r.getFetcherForRef(documentID)
 
 	if err != nil {
@@ -471,7 +482,8 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 	document, err := fetcher.fetchDocument(documentID)
 
 	if err != nil {
-		return nil, fmt.Errorf("failed to fetch document '%s': %w", ref, err)
+		r.failedDocuments[documentID] = fmt.Errorf("failed to fetch document '%s': %w", ref, err)
+		return nil, r.failedDocuments[documentID]
 	}
 
 	r.addDocument(documentID, document)
-- 
2.43.0


From b25eb6c373096d5645f50924a4406305b3a7569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 48/82] fix: keep a merged document usable when one of its
 references can not be resolved

---
 document.go | 39 +++++++++++++++++----------------------
 merge.go    |  3 +--
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/document.go b/document.go
index f46322b..014fc4a 100644
--- a/document.go
+++ b/document.go
@@ -164,9 +164,10 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 		return schemaNode{}, fmt.Errorf("failed to unmarshal schema node to generic node for reference rewriting: %w", err)
 	}
 
-	genericNode, err = r.rewriteReferencesRelativeToDocumentInGenericNode(genericNode)
-	if err != nil {
-		return schemaNode{}, fmt.Errorf("failed to rewrite references relative to document '%s': %w", r.GetCurrentScope(), err)
+	// References that can not be resolved are left out of the rewritten node. The rest of it remains usable.
+	genericNode, unresolvedErr := r.rewriteReferencesRelativeToDocumentInGenericNode(genericNode)
+	if unresolvedErr != nil {
+		unresolvedErr = fmt.Errorf("failed to rewrite references relative to document '%s': %w", r.GetCurrentScope(), unresolvedErr)
 	}
 
 	rewrittenJsonData, err := json.Marshal(genericNode)
@@ -179,24 +180,22 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 		return schemaNode{}, fmt.Errorf("failed to unmarshal rewritten JSON back to schema node: %w", err)
 	}
 
-	return newNode, nil
+	return newNode, unresolvedErr
 }
 
 func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(genericNode genericNode) (genericNode, error) {
-	for key, value := range genericNode {
-		if key == "$ref" {
-			refStr, ok := value.(string)
-
-			// If the value under $ref is not a string, skip it
-			// for polymorphic schemas that may have non-string $ref values
-			// { "properties": {"$ref": {...}}
-			if !ok {
-				return genericNode, nil
-			}
+	var unresolved []error
 
+	for key, value := range genericNode {
+		// If the value under $ref is not a string, it is not a reference
+		// for polymorphic schemas that may have non-string $ref values
+		// { "properties": {"$ref": {...}}
+		if refStr, ok := value.(string); ok && key == "$ref" {
 			documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
 			if err != nil {
-				return genericNode, fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
+				unresolved = append(unresolved, fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err))
+				delete(genericNode, key)
+				continue
 			}
 
 			// Rewrite the reference to be relative to the given document ID
@@ -207,17 +206,13 @@ func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(gene
 		switch v := value.(type) {
 		case map[string]interface{}:
 			rewrittenNode, err := r.rewriteReferencesRelativeToDocumentInGenericNode(v)
-			if err != nil {
-				return genericNode, err
-			}
+			unresolved = append(unresolved, err)
 			genericNode[key] = rewrittenNode
 		case []interface{}:
 			for i, item := range v {
 				if itemMap, ok := item.(map[string]interface{}); ok {
 					rewrittenItem, err := r.rewriteReferencesRelativeToDocumentInGenericNode(itemMap)
-					if err != nil {
-						return genericNode, err
-					}
+					unresolved = append(unresolved, err)
 					v[i] = rewrittenItem
 				}
 			}
@@ -225,7 +220,7 @@ func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(gene
 		}
 	}
 
-	return genericNode, nil
+	return genericNode, errors.Join(unresolved...)
 }
 
 func (r *documentResolver) SetDocumentBeingResolved(documentId string) {
diff --git a/merge.go b/merge.go
index 36e1833..0787740 100644
--- a/merge.go
+++ b/merge.go
@@ -436,9 +436,8 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	newNode, err := metadata.DocumentResolver.RewriteReferencesRelativeToDocument(*refNode)
 	if err != nil {
 		errPath := "/config_ref_rewrite_error"
-		formattedErr := fmt.Errorf("failed to rewrite references for ref [%s]: %e", *node.Ref, err)
+		formattedErr := fmt.Errorf("failed to rewrite references for ref [%s]: %w", *node.Ref, err)
 		metadata.Errors.AddErrorWithSubpath(errPath, formattedErr)
-		return schemaNode{}, formattedErr
 	}
 
 	return newNode, nil
-- 
2.43.0


From 1b7990a6433e075b176910cbd4e165fa16c95971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 49/82] fix: load the documents that references of compiled sub
 schemas lead to

---
 document.go |  8 ++++----
 schema.go   | 35 +++++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/document.go b/document.go
index 014fc4a..aeefab0 100644
--- a/document.go
+++ b/document.go
@@ -455,15 +455,15 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 	matches := util.RegexMatchNamedCaptureGroups(documentRegex, ref)
 	documentID, hasDocument := matches["document"]
 
-	if !hasDocument || documentID == "" || r.HasNoFetchers() {
-		return nil, fmt.Errorf("invalid $ref format, must contain document, ref given '%s'", ref)
-	}
-
 	// Documents are only ever fetched once
 	if document, loaded := r.documents[documentID]; loaded {
 		return document, nil
 	}
 
+	if !hasDocument || documentID == "" || r.HasNoFetchers() {
+		return nil, fmt.Errorf("invalid $ref format, must contain document, ref given '%s'", ref)
+	}
+
 	if err, failed := r.failedDocuments[documentID]; failed {
 		return nil, err
 	}
diff --git a/schema.go b/schema.go
index 3cb3261..4f2f0cd 100644
--- a/schema.go
+++ b/schema.go
@@ -52,7 +52,7 @@ func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node sc
 	sm.subSchemaCount++
 	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s/%d", parserMetadata.ReferenceHandler.CurrentPath, field, sm.subSchemaCount))
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
-	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
+	referenceUpdatedNode := sm.replaceRefs(parserMetadata, deepClonedNode)
 
 	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
 		return nil, err
@@ -67,18 +67,22 @@ func (sm *schemaManager) normalisePath(path string) string {
 	return pathSanitiseRegex.ReplaceAllString(path, "_")
 }
 
-// Recursively replaces all $ref values in the schema with links back to the root schema
-func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
+// Recursively replaces all $ref values in the schema with links back to the document they belong to
+func (sm *schemaManager) replaceRefs(parserMetadata *parserMetadata, data interface{}) interface{} {
 	switch v := data.(type) {
 	case map[string]interface{}:
 		if ref, ok := v["$ref"]; ok {
 			if refStr, ok := ref.(string); ok {
 				documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(refStr)
-				if _, documentLoaded := sm.documentResolver.documents[documentId]; err != nil || !documentLoaded {
-					// Cross-document refs to documents that have not been loaded can't be resolved
+				if err == nil {
+					_, err = sm.documentResolver.resolveDocument(documentId)
+				}
+
+				if err != nil {
+					// Refs to documents that can not be loaded can't be resolved
 					// by the internal-only compiler. Strip them so the sub-schema
-					// becomes permissive for that part. The go-chaff parser handles
-					// cross-document resolution separately at the parse level.
+					// becomes permissive for that part.
+					parserMetadata.Errors.AddErrorWithSubpath("/$ref", fmt.Errorf("failed to resolve ref '%s' of a sub schema: %w", refStr, err))
 					delete(v, "$ref")
 				} else {
 					v["$ref"] = documentId + path
@@ -86,12 +90,12 @@ func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 			}
 		}
 		for key, value := range v {
-			v[key] = sm.replaceRefs(value)
+			v[key] = sm.replaceRefs(parserMetadata, value)
 		}
 		return v
 	case []interface{}:
 		for i, item := range v {
-			v[i] = sm.replaceRefs(item)
+			v[i] = sm.replaceRefs(parserMetadata, item)
 		}
 		return v
 	default:
@@ -104,9 +108,16 @@ func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error)
 }
 
 func (l internalOnlyLoader) Load(url string) (any, error) {
-	if document, ok := l.documentResolver.documents[url]; ok {
-		return util.UnmarshalJsonStringToMap(util.MarshalJsonToString(document)), nil
+	// Documents are only loaded in ways the document fetchers allow
+	documentId, _, err := l.documentResolver.ResolveDocumentIdAndPath(url)
+	if err != nil {
+		return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation: %w", url, err)
+	}
+
+	document, err := l.documentResolver.resolveDocument(documentId)
+	if err != nil {
+		return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation: %w", url, err)
 	}
 
-	return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation", url)
+	return util.UnmarshalJsonStringToMap(util.MarshalJsonToString(document)), nil
 }
-- 
2.43.0


From 3bbb3b20bb86b88dc01a0e95865a66e4932d3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 50/82] fix: resolve references next to merged ones against the
 document they are written in

---
 merge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 0787740..de5796d 100644
--- a/merge.go
+++ b/merge.go
@@ -85,10 +85,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		if resolvedReference {
-			// Pop the reference resolution and set the document being resolved back to the previous one
+			// Pop the reference resolution. References of resolved nodes name their document,
+			// any others are relative to the document being parsed
 			metadata.ReferenceResolver.PopRefResolution()
-			document, _ := metadata.ReferenceResolver.GetCurrentResolution()
-			metadata.DocumentResolver.SetDocumentBeingResolved(document)
+			metadata.DocumentResolver.SetDocumentBeingResolved(metadata.DocumentResolver.GetDocumentIdCurrentlyBeingParsed())
 		}
 	}
 
-- 
2.43.0


From 35133797d635f2419a274d2cad8b09ad77204703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 51/82] fix: give up on negations that refer back to themselves
 instead of overflowing the stack

---
 not.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/not.go b/not.go
index 0daac27..f7bbcc4 100644
--- a/not.go
+++ b/not.go
@@ -52,6 +52,14 @@ func init() {
 //  5. The resulting node is handed to parseNode and wrapped in a
 //     constrainedGenerator that enforces the accumulated constraints.
 func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
+	// Unwinding a double negation that refers back to itself would otherwise never end
+	metadata.ParseDepth++
+	defer func() { metadata.ParseDepth-- }()
+
+	if maxDepth := metadata.ParserOptions.MaxParseDepth; metadata.ParseDepth > maxDepth {
+		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+	}
+
 	rawNotNodes := collectNotNodes(node)
 
 	notNodes, doubleNegatedNodes := flattenAndPartitionNotNodes(metadata, rawNotNodes)
-- 
2.43.0


From 6c27117066349c92725271326c3496c8e54f209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 52/82] fix: bound the work spent on parsing circular schemas
 that branch out

---
 document.go       |  4 ++++
 merge.go          |  4 ++++
 parse.go          | 23 +++++++++++++++++++++++
 reference_path.go |  9 +++++++--
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index aeefab0..7934137 100644
--- a/document.go
+++ b/document.go
@@ -441,6 +441,10 @@ func (r *documentResolver) ParseNextDocument(metadata *parserMetadata) (string,
 	// refs resolved during parsing don't re-queue this document.
 	r.parsedExternalDocuments[nextDocumentId] = true
 
+	if document, err := json.Marshal(documentNode); err == nil {
+		metadata.MaxParsedNodes += len(document)
+	}
+
 	_, err = parseRoot(*documentNode, metadata)
 
 	if err != nil {
diff --git a/merge.go b/merge.go
index de5796d..4eaf3f8 100644
--- a/merge.go
+++ b/merge.go
@@ -16,6 +16,10 @@ func newEmptySchemaNode() schemaNode {
 func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode, error) {
 	mergedNode := newEmptySchemaNode()
 
+	if err := metadata.countParsedNode(); err != nil {
+		return mergedNode, err
+	}
+
 	for _, node := range nodes {
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
 
diff --git a/parse.go b/parse.go
index fef407b..d51258b 100644
--- a/parse.go
+++ b/parse.go
@@ -86,6 +86,10 @@ type (
 		// Current parse depth for detecting infinite recursion in circular schemas
 		ParseDepth int
 
+		// Number of nodes parsed and merged so far. Used to give up on circular schemas that branch out on every level
+		ParsedNodes    int
+		MaxParsedNodes int
+
 		// Schema management for compiling schemas for internal value validation (Required for where subschemas need to be matched for random value generation)
 		SchemaManager *schemaManager
 
@@ -273,6 +277,7 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 		ParserOptions:    optsWithDefault,
 		RootNode:         node,
 		MergeDepth:       0,
+		MaxParsedNodes:   maxAdditionalParsedNodes + len(schema),
 		DocumentResolver: documentResolver,
 	}
 
@@ -297,6 +302,20 @@ func ParseSchemaWithDefaults(schema []byte) (RootGenerator, error) {
 // custom value is provided via ParserOptions.MaxParseDepth.
 const defaultMaxParseDepth = 100
 
+// Number of nodes (on top of one for every byte of the schema) that are parsed and merged before giving up on it
+const maxAdditionalParsedNodes = 10000
+
+// Counts a node that is parsed or merged. Circular schemas that branch out on every level
+// would otherwise take a time exponential in the maximum parse depth.
+func (m *parserMetadata) countParsedNode() error {
+	m.ParsedNodes++
+	if m.ParsedNodes > m.MaxParsedNodes {
+		return fmt.Errorf("maximum number of parsed nodes (%d) exceeded, possible circular schema reference", m.MaxParsedNodes)
+	}
+
+	return nil
+}
+
 func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	metadata.ParseDepth++
 	defer func() { metadata.ParseDepth-- }()
@@ -306,6 +325,10 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
 	}
 
+	if err := metadata.countParsedNode(); err != nil {
+		return nullGenerator{}, err
+	}
+
 	refHandler := metadata.ReferenceHandler
 
 	gen, err := parseSchemaNode(node, metadata)
diff --git a/reference_path.go b/reference_path.go
index 319060a..38fa54f 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -8,6 +8,11 @@ import (
 	"strings"
 )
 
+var (
+	referencePathEscaper   = strings.NewReplacer("~", "~0", "/", "~1", "%", "%25")
+	referencePathUnescaper = strings.NewReplacer("~1", "/", "~0", "~")
+)
+
 // Based on a reference path and a schema node, resolve the schema node at the reference path
 func resolveReferencePath(node *schemaNode, refPath string) (*schemaNode, error) {
 	if refPath == "" {
@@ -20,7 +25,7 @@ func resolveReferencePath(node *schemaNode, refPath string) (*schemaNode, error)
 // Escapes the name of a property / definition for the use in a reference path.
 // "%" needs to be escaped on top of the json pointer escapes given reference paths are url fragments
 func escapeReferencePathToken(token string) string {
-	return strings.NewReplacer("~", "~0", "/", "~1", "%", "%25").Replace(token)
+	return referencePathEscaper.Replace(token)
 }
 
 func unescapeReferencePathToken(token string) string {
@@ -28,7 +33,7 @@ func unescapeReferencePathToken(token string) string {
 		token = decoded
 	}
 
-	return strings.NewReplacer("~1", "/", "~0", "~").Replace(token)
+	return referencePathUnescaper.Replace(token)
 }
 
 // Normalises a reference path so that there is one way of writing down every path
-- 
2.43.0


From bd0fc4543d78ce1cfd12dcbea35ffe9bfa516733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 53/82] fix: report an impossible negation of uniqueItems
 instead of panicking

---
 not.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index f7bbcc4..aa39fbc 100644
--- a/not.go
+++ b/not.go
@@ -512,7 +512,7 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		warnField(metadata, "not/uniqueItems", fmt.Errorf("cannot have 'not/uniqueItems' set to true. It is very difficult to calculate items that match all clauses and are identical throughout the array"))
 	}
 
-	newNode.UniqueItems = resolveBool("not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
+	newNode.UniqueItems = resolveBool(metadata, "not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
 
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
@@ -1113,13 +1113,13 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	return validValues, nil
 }
 
-func resolveBool(fieldName string, value *bool, notValue *bool) *bool {
+func resolveBool(metadata *parserMetadata, fieldName string, value *bool, notValue *bool) *bool {
 	if value == nil && notValue == nil {
 		return nil
 	}
 
 	if value != nil && notValue != nil && *value == *notValue {
-		warnField(nil, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
+		warnField(metadata, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
 		return value
 	}
 
-- 
2.43.0


From 2e1f0915c220bf06f64837a7ada0fe6c120fd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 54/82] fix: generate large minimum numbers of properties in
 linear time

---
 object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 5e1ae6b..2ca8a10 100644
--- a/object.go
+++ b/object.go
@@ -283,7 +283,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 // Returns a name for an additional property that is neither defined nor in use yet
 func (g objectGenerator) unusedPropertyName(prefix string, generatedValues map[string]interface{}) string {
-	for i := 0; ; i++ {
+	for i := len(generatedValues); ; i++ {
 		name := fmt.Sprintf("%s_%d", prefix, i)
 		_, used := generatedValues[name]
 		_, defined := g.Properties[name]
-- 
2.43.0


From b7757b083f56111a05c2d51b4003acc71a18ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 55/82] fix: stop generating optional items and properties past
 the cutoff

---
 array.go  |  5 +++++
 object.go | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index 73ddcc7..f2ddc16 100644
--- a/array.go
+++ b/array.go
@@ -331,6 +331,11 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate the remaining items up to a random number
 	// (This might skew the distribution of the length of the array)
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
+		// Give up on optional items once there are too many steps
+		if opts.ShouldCutoff() && len(arrayData) >= minItems {
+			break
+		}
+
 		item, ok := g.generateConsideringMaxContains(opts, itemGen, arrayData)
 
 		if !ok && len(arrayData) >= minItems {
diff --git a/object.go b/object.go
index 2ca8a10..5524b1f 100644
--- a/object.go
+++ b/object.go
@@ -234,8 +234,17 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	numberOfOptionalKeysToGenerate := util.MinInt(len(optionalKeys), generatorTarget)
 	optionalKeysToGenerate := opts.Rand.StringChoiceMultiple(&optionalKeys, numberOfOptionalKeysToGenerate)
 
+	// Give up on optional properties once there are too many steps
+	isCutOff := func() bool {
+		return opts.ShouldCutoff() && len(generatedValues) >= min
+	}
+
 	// Generate any optional keys
 	for _, key := range optionalKeysToGenerate {
+		if isCutOff() {
+			return generatedValues
+		}
+
 		generatedValues[key] = g.Properties[key].Generate(opts)
 	}
 
@@ -245,18 +254,18 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Failing that generate any additional properties
 	// Failing that generate any fallback properties
 	if len(g.PatternProperties) > 0 {
-		for i := 0; i < generatorTarget; i++ {
+		for i := 0; i < generatorTarget && !isCutOff(); i++ {
 			g.generateUnusedPatternProperty(opts, generatedValues)
 		}
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
-		for i := 0; i < generatorTarget; i++ {
+		for i := 0; i < generatorTarget && !isCutOff(); i++ {
 			name := g.unusedPropertyName("additional", generatedValues)
 			generatedValues[name] = g.AdditionalProperties.Generate(opts)
 		}
 	} else {
-		for i := 0; i < generatorTarget; i++ {
+		for i := 0; i < generatorTarget && !isCutOff(); i++ {
 			if opts.SuppressFallbackValues || min > len(generatedValues) {
 				continue
 			}
-- 
2.43.0


From 9387d79c683db0ad92d71f8dab9e9e9029447671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 56/82] fix: do not generate null in place of types the other
 keywords rule out

---
 multiple_type.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/multiple_type.go b/multiple_type.go
index 4a7864a..eb39338 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -19,15 +19,22 @@ type (
 //	{
 //	  "type": ["string", "number"]
 //	}
-func parseMultipleType(node schemaNode, metadata *parserMetadata) (multipleTypeGenerator, error) {
+func parseMultipleType(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	generators := []Generator{}
+	var lastErr error
 	for _, nodeType := range node.Type.MultipleTypes {
+		// Types the other keywords of the node leave no value of can not be generated
 		generator, err := parseType(nodeType, node, metadata)
 		if err != nil {
-			generators = append(generators, nullGenerator{})
-		} else {
-			generators = append(generators, generator)
+			lastErr = err
+			continue
 		}
+
+		generators = append(generators, generator)
+	}
+
+	if len(generators) == 0 {
+		return nullGenerator{}, fmt.Errorf("none of the types %v can be generated: %w", node.Type.MultipleTypes, lastErr)
 	}
 
 	return multipleTypeGenerator{
-- 
2.43.0


From bbd49eba68047aa46567ddc5e220f3508c00f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 57/82] fix: report unknown types

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index d51258b..66c8374 100644
--- a/parse.go
+++ b/parse.go
@@ -444,7 +444,7 @@ func parseType(nodeType string, node schemaNode, metadata *parserMetadata) (Gene
 	case typeNull:
 		return parseNull(node)
 	default:
-		return nullGenerator{}, nil
+		return nullGenerator{}, fmt.Errorf("unknown type '%s'", nodeType)
 	}
 }
 
-- 
2.43.0


From 7f4e514ea071006b3305b67413c5ff9174c02a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 58/82] fix: report empty enums

---
 not.go   | 2 +-
 parse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/not.go b/not.go
index aa39fbc..fcea7b1 100644
--- a/not.go
+++ b/not.go
@@ -377,7 +377,7 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 				warnField(metadata, "not/multipleOf", fmt.Errorf("Unable to find any valid enum values given the multipleOf and not/multipleOf constraints"))
 			}
 			newNode.Enum = &filteredEnum
-		} else {
+		} else if len(validValues) > 0 {
 			interfaceValues := make([]interface{}, len(validValues))
 			for i, v := range validValues {
 				interfaceValues[i] = v
diff --git a/parse.go b/parse.go
index 66c8374..1e35bb5 100644
--- a/parse.go
+++ b/parse.go
@@ -392,7 +392,7 @@ func parseSchemaNode(node schemaNode, metadata *parserMetadata) (Generator, erro
 	}
 
 	// Handle enum nodes
-	if node.Enum != nil && len(*node.Enum) != 0 {
+	if node.Enum != nil {
 		return parseEnum(node, metadata)
 	}
 
-- 
2.43.0


From 76b341598d203eb43671a2cfaf66363167791eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 59/82] fix: report errors of alternatives and conditions at
 valid pointers

---
 combination.go | 4 ++--
 if.go          | 2 +-
 not.go         | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/combination.go b/combination.go
index cde6b0e..8161bb3 100644
--- a/combination.go
+++ b/combination.go
@@ -81,7 +81,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		for i, node := range oneOf {
 			resolvedNode, err := mergeSchemaNodes(metadata, node)
 			if err != nil {
-				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
+				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("/oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
 				continue
 			}
 
@@ -149,7 +149,7 @@ func newOneOfConstraint(node schemaNode, metadata *parserMetadata) (*oneOfConstr
 	}
 
 	for key, node := range *node.OneOf {
-		path := fmt.Sprintf("oneOf/%d", key)
+		path := fmt.Sprintf("/oneOf/%d", key)
 		compiledSchema, err := metadata.SchemaManager.ParseSchemaNode(metadata, node, path)
 
 		if err != nil {
diff --git a/if.go b/if.go
index 9bdbf30..a6b3c30 100644
--- a/if.go
+++ b/if.go
@@ -62,7 +62,7 @@ func parseIf(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	for i, ifStatement := range mergedIf {
 		compiled, err := ifStatement.Compile(node, metadata, fmt.Sprintf("/if/%d", i))
 		if err != nil {
-			path := fmt.Sprintf("if/%d/config_compile_error", i)
+			path := fmt.Sprintf("/if/%d/config_compile_error", i)
 			metadata.Errors.AddErrorWithSubpath(path, err)
 			continue
 		}
diff --git a/not.go b/not.go
index fcea7b1..4319ece 100644
--- a/not.go
+++ b/not.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -1135,7 +1136,7 @@ func warnUnsupportedField(metadata *parserMetadata, fieldName string, fieldEmpty
 
 func warnField(metadata *parserMetadata, fieldName string, err error) {
 	if err != nil {
-		errorPath := fmt.Sprintf("/%s", fieldName)
+		errorPath := "/" + strings.TrimPrefix(fieldName, "/")
 		metadata.Errors.AddErrorWithSubpath(errorPath, err)
 	}
 }
-- 
2.43.0


From 7d6b348879ff60d335f1396d0aa7e303354eba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 60/82] fix: do not report a constant that a negated enum does
 not list

---
 not.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 4319ece..35606c7 100644
--- a/not.go
+++ b/not.go
@@ -420,8 +420,8 @@ func notApplyEnum(metadata *parserMetadata, newNode *schemaNode, constraintColle
 		constJsonData := util.MarshalJsonToString(node.Const)
 		if funk.ContainsString(notEnumJsonData, constJsonData) {
 			warnField(metadata, "not/enum", fmt.Errorf("cannot have 'not/enum' contain the same value as 'const'"))
-			return nil
 		}
+		return nil
 	}
 
 	enumJsonData := util.SafeMarshalListToJsonList(node.Enum)
-- 
2.43.0


From 4228997870489d45285bcdd8ce2a5be80fa5c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 61/82] fix: report unsupported keywords in merged schemas

---
 merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/merge.go b/merge.go
index 4eaf3f8..35826fd 100644
--- a/merge.go
+++ b/merge.go
@@ -387,6 +387,14 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	warnIfBothSetAndAreDifferent(metadata, "uniqueItems", baseNode.UniqueItems, otherNode.UniqueItems)
 	baseNode.UniqueItems = util.GetPtr(otherNode.UniqueItems, baseNode.UniqueItems)
 
+	// Unsupported keywords are kept, so that parsing the merged node reports them
+	if len(otherNode.DependentRequired) > 0 {
+		baseNode.DependentRequired = otherNode.DependentRequired
+	}
+	if len(otherNode.DependentSchemas) > 0 {
+		baseNode.DependentSchemas = otherNode.DependentSchemas
+	}
+
 	return baseNode
 }
 
-- 
2.43.0


From e742668b33820f3489ab9ab3bc0181eea964b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 62/82] fix: allow as many items and properties as the maximum
 says

---
 array.go  | 2 +-
 object.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index f2ddc16..1eb2f24 100644
--- a/array.go
+++ b/array.go
@@ -321,7 +321,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Compute how many items we can generate over the minimum satisfiable set of data)
 	remainingItemsToGenerate := util.MaxInt(0, maxItems-(tupleLength+g.MinContains))
 
-	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate)
+	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate+1)
 
 	// Cull the remaining items if the complexity is too high or unevaluated items are not allowed
 	if g.DisallowUnevaluatedItems || opts.ShouldMinimize() {
diff --git a/object.go b/object.go
index 5524b1f..156adf9 100644
--- a/object.go
+++ b/object.go
@@ -225,7 +225,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	minimumExtrasToGenerate := util.MaxInt(0, min-len(generatedValues))
 	maximumExtrasToGenerate := util.MaxInt(0, max-len(generatedValues))
 
-	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate)
+	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate+1)
 
 	if opts.ShouldMinimize() {
 		generatorTarget = minimumExtrasToGenerate
-- 
2.43.0


From fb1134e0414a91d15e5771d7697242b053e037b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 63/82] fix: apply the default maximum number of items to
 arrays with a minimum

---
 array.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 1eb2f24..7bebb7b 100644
--- a/array.go
+++ b/array.go
@@ -281,7 +281,10 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
-	maxItems := util.GetInt(g.MaxItems, minItems+opts.DefaultArrayMaxItems)
+	maxItems := util.GetInt(g.MaxItems, opts.DefaultArrayMaxItems)
+	if g.MaxItems == 0 && maxItems < minItems {
+		maxItems = minItems + opts.DefaultArrayMaxItems
+	}
 
 	// Only items matching "contains" may follow the tuple if there is no schema for them and unevaluated items are not allowed
 	if g.DisallowUnevaluatedItems && g.ItemGenerator == nil && g.AdditionalItemsGenerator == nil {
-- 
2.43.0


From fa66b27d462454c514c9d8654a026cf817429bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 64/82] fix: apply every negated keyword to values that are
 listed by enum or const

---
 not.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/not.go b/not.go
index 35606c7..92cc964 100644
--- a/not.go
+++ b/not.go
@@ -90,6 +90,16 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	// There is nothing to coerce for values that are given: the ones that match a negated schema are left out
+	if flatNode.Enum != nil || flatNode.Const != nil {
+		flatNode, err = rejectNegatedValues(metadata, flatNode, rawNotNodes)
+		if err != nil {
+			return nullGenerator{}, err
+		}
+
+		return parseSchemaNode(flatNode, metadata)
+	}
+
 	currentNode, allConstraints := applyNotConstraints(metadata, flatNode, notNodes)
 
 	internalGenerator, err := parseNode(currentNode, metadata)
@@ -105,6 +115,42 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}, nil
 }
 
+// rejectNegatedValues removes all values from the "enum" of a node that match one of the negated schemas.
+// An error is returned when no value (or not the "const" of the node) is left.
+func rejectNegatedValues(metadata *parserMetadata, node schemaNode, notNodes []*schemaNode) (schemaNode, error) {
+	values := []interface{}{}
+	if node.Enum != nil {
+		values = *node.Enum
+	} else {
+		values = append(values, *node.Const)
+	}
+
+	for i, notNode := range notNodes {
+		notSchema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *notNode, fmt.Sprintf("not/%d", i))
+		if err != nil {
+			return node, fmt.Errorf("failed to compile schema of not: %w", err)
+		}
+
+		remainingValues := []interface{}{}
+		for _, value := range values {
+			if notSchema.Validate(value) != nil {
+				remainingValues = append(remainingValues, value)
+			}
+		}
+		values = remainingValues
+	}
+
+	if len(values) == 0 {
+		return node, fmt.Errorf("illogical schema, all of the values given match a negated schema: %s", util.MarshalJsonToString(node))
+	}
+
+	if node.Enum != nil {
+		node.Enum = &values
+	}
+
+	return node, nil
+}
+
 // collectNotNodes gathers all not sub-schemas from a node into a single slice.
 // This includes node.Not (the inline "not" keyword) and node.mergedNot (not
 // nodes accumulated during allOf merges where each branch's "not" must be
-- 
2.43.0


From 803229c5b854f2fca44d96cd5dbfef4da8f99303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 65/82] fix: report properties that are required and must not
 be there at the same time

---
 not.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/not.go b/not.go
index 92cc964..ec05136 100644
--- a/not.go
+++ b/not.go
@@ -656,6 +656,10 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 			nonConflictingNotRequired = append(nonConflictingNotRequired, prop)
 		}
 	}
+	if len(notRequiredProperties) > 0 && len(nonConflictingNotRequired) == 0 && onlyHasRequired(notNode) {
+		warnField(metadata, "not/required", fmt.Errorf("cannot have all of the properties of 'not/required' in 'required', they are mutually exclusive"))
+	}
+
 	if len(nonConflictingNotRequired) > 0 {
 		constraintCollection.AddMustNotHaveProperties(nonConflictingNotRequired)
 	}
@@ -667,6 +671,12 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 	return nil
 }
 
+// Checks that a node has no keywords next to "required"
+func onlyHasRequired(node schemaNode) bool {
+	return len(node.mergedOneOf) == 0 && len(node.mergedAnyOf) == 0 && len(node.mergedIf) == 0 && len(node.mergedNot) == 0 &&
+		util.MarshalJsonToString(node) == util.MarshalJsonToString(schemaNode{Required: node.Required})
+}
+
 func applyUnsupportedNotFields(metadata *parserMetadata, newNode *schemaNode, constraintCollection *constraintCollection, node schemaNode, notNode schemaNode) error {
 	// Unsupported fields
 	warnUnsupportedField(metadata, "not/dependentRequired", func() bool {
-- 
2.43.0


From afb065dabd742509022c0f30bf1047461b346f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 66/82] fix: apply negations to the values that earlier
 negations left

---
 not.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/not.go b/not.go
index ec05136..cd0b44c 100644
--- a/not.go
+++ b/not.go
@@ -208,7 +208,19 @@ func flattenAndPartitionNotNodes(metadata *parserMetadata, rawNotNodes []*schema
 func applyNotConstraints(metadata *parserMetadata, baseNode schemaNode, notNodes []schemaNode) (schemaNode, constraintCollection) {
 	currentNode := baseNode
 	allConstraints := newConstraintCollection()
-	for _, notNode := range notNodes {
+	for i := range notNodes {
+		notNode := notNodes[i]
+
+		// Earlier negations might have left a list of values
+		if currentNode.Enum != nil && !hasMergedFields(notNode) {
+			newNode, err := rejectNegatedValues(metadata, currentNode, []*schemaNode{&notNode})
+			if err != nil {
+				warnField(metadata, "not", err)
+			}
+			currentNode = newNode
+			continue
+		}
+
 		newNode, cc := notMerge(metadata, currentNode, notNode)
 		currentNode = newNode
 		allConstraints.Merge(cc)
@@ -671,9 +683,14 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 	return nil
 }
 
+// Checks if a node has conditions that were collected while merging, given these are not part of its JSON
+func hasMergedFields(node schemaNode) bool {
+	return len(node.mergedOneOf) > 0 || len(node.mergedAnyOf) > 0 || len(node.mergedIf) > 0 || len(node.mergedNot) > 0
+}
+
 // Checks that a node has no keywords next to "required"
 func onlyHasRequired(node schemaNode) bool {
-	return len(node.mergedOneOf) == 0 && len(node.mergedAnyOf) == 0 && len(node.mergedIf) == 0 && len(node.mergedNot) == 0 &&
+	return !hasMergedFields(node) &&
 		util.MarshalJsonToString(node) == util.MarshalJsonToString(schemaNode{Required: node.Required})
 }
 
-- 
2.43.0


From be2999bb8be8be20e6c04c27038de561368d6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 67/82] fix: allow the length right above a negated maximum

---
 not.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/not.go b/not.go
index cd0b44c..e1b9e8e 100644
--- a/not.go
+++ b/not.go
@@ -988,7 +988,7 @@ func resolveBoundsInt(metadata *parserMetadata,
 
 	// Not bounds are inverted (notMax -> min, notMin -> max)
 	y1 := util.GetZeroIfNil(notMinPtr, minInt)
-	y2 := util.GetZeroIfNil(addIfNotNilInt(notMaxPtr, 1), maxInt)
+	y2 := util.GetZeroIfNil(notMaxPtr, maxInt)
 
 	// No bounds overlap return original
 	if y2 < x1 || y1 > x2 {
@@ -1142,15 +1142,6 @@ func addIfNotNilFloat64(value *float64, addition float64) *float64 {
 	return &newValue
 }
 
-func addIfNotNilInt(value *int, addition int) *int {
-	if value == nil {
-		return nil
-	}
-
-	newValue := *value + int(addition)
-	return &newValue
-}
-
 func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max float64, multipleOf float64, notMultipleOf float64) ([]float64, error) {
 	const maximumIterations = 10000
 	const maximumValidCandidates = 200
-- 
2.43.0


From dc3a66c02d0bef9f279aca1838a95e47047a784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 68/82] fix: leave out negated multiples when there is no end
 to the values

---
 constraint.go | 24 ++++++++++++++++++++++++
 not.go        | 31 +++++++++++++++----------------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/constraint.go b/constraint.go
index 4e3ac90..276957a 100644
--- a/constraint.go
+++ b/constraint.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strings"
 
@@ -42,6 +43,9 @@ type (
 		// Set of JSON stringified values that the generated value must not be equal to
 		notValueConstraints map[string]struct{}
 
+		// Set of numbers that the generated value must not be a multiple of
+		notMultipleOfConstraints map[float64]struct{}
+
 		// Property based constraints
 		mustNotHaveProperties []string
 	}
@@ -57,6 +61,7 @@ func newConstraintCollection() constraintCollection {
 		notMatchingFormatConstraints: make(map[string]func(any) bool),
 		notMatchingRegexConstraints:  make(map[string]regexp.Regexp),
 		notValueConstraints:          make(map[string]struct{}),
+		notMultipleOfConstraints:     make(map[float64]struct{}),
 	}
 }
 
@@ -70,6 +75,10 @@ func (cc *constraintCollection) AddNotValueConstraint(values []string) {
 	}
 }
 
+func (cc *constraintCollection) AddNotMultipleOfConstraint(multipleOf float64) {
+	cc.notMultipleOfConstraints[multipleOf] = struct{}{}
+}
+
 func (cc *constraintCollection) AddNotMatchingRegexConstraint(pattern string) error {
 	if _, exists := cc.notMatchingRegexConstraints[pattern]; exists {
 		return nil
@@ -116,6 +125,9 @@ func (cc *constraintCollection) Merge(other *constraintCollection) {
 	for k, v := range other.notValueConstraints {
 		cc.notValueConstraints[k] = v
 	}
+	for k, v := range other.notMultipleOfConstraints {
+		cc.notMultipleOfConstraints[k] = v
+	}
 	cc.mustNotHaveProperties = append(cc.mustNotHaveProperties, other.mustNotHaveProperties...)
 }
 
@@ -155,6 +167,18 @@ func (mc *constraintCollection) Compile() *multiConstraint {
 		}
 	}
 
+	for multipleOf := range mc.notMultipleOfConstraints {
+		constraintFunctions[fmt.Sprintf("NotMultipleOf: %v", multipleOf)] = func(value interface{}) bool {
+			switch number := value.(type) {
+			case int:
+				return math.Mod(float64(number), multipleOf) != 0
+			case float64:
+				return math.Mod(number, multipleOf) != 0
+			}
+			return true
+		}
+	}
+
 	if len(mc.mustNotHaveProperties) > 0 {
 		constraintFunctions[fmt.Sprintf("MustNotHaveProperties: %s", strings.Join(mc.mustNotHaveProperties, ","))] = func(value interface{}) bool {
 			objValue, ok := value.(map[string]interface{})
diff --git a/not.go b/not.go
index e1b9e8e..0b7aff4 100644
--- a/not.go
+++ b/not.go
@@ -391,29 +391,28 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	} else if notMultipleOf != 0 && notMultipleOf <= infinitesimal {
 		warnField(metadata, "not/multipleOf", fmt.Errorf("multipleOf is too small to enforce in a Not Clause"))
 	} else if notMultipleOf != 0 {
-		// We handle getting valid values of `not/multipleOf` by precomputing valid values and baking them into an enum
-		// in order to create a valid range of values that can be generated.
-		validValues := []float64{}
-		if multipleOf == 0 {
-			multipleOf = infinitesimal
+		// Values that are not on a grid (or are on one that has no end) can not be listed, so they are checked once they are generated
+		if multipleOf == 0 || min == nil || max == nil {
+			newNode.MultipleOf = node.MultipleOf
+			constraintCollection.AddNotMultipleOfConstraint(notMultipleOf)
+			return nil
 		}
 
-		min := util.GetZeroIfNil(min, lowerBound)
-		max := util.GetZeroIfNil(max, upperBound)
-
-		validValues, err := computeValidMultipleOfValues(metadata, min, max, multipleOf, notMultipleOf)
-		if err != nil && alturnateMin != nil || alturnateMax != nil {
+		// We handle getting valid values of `not/multipleOf` by precomputing valid values and baking them into an enum
+		// in order to create a valid range of values that can be generated.
+		validValues, err := computeValidMultipleOfValues(metadata, *min, *max, multipleOf, notMultipleOf)
+		if err != nil && (alturnateMin != nil || alturnateMax != nil) {
 			alturnateMinVal := util.GetZeroIfNil(alturnateMin, lowerBound)
 			alturnateMaxVal := util.GetZeroIfNil(alturnateMax, upperBound)
 
 			validValues, err = computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+		}
 
-			// In the event both upper bound computations fail, we warn and exit given there is not
-			// more we can reasonably do to find valid values
-			if err != nil {
-				warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
-				return nil
-			}
+		// In the event both upper bound computations fail, we warn and exit given there is not
+		// more we can reasonably do to find valid values
+		if err != nil {
+			warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
+			return nil
 		}
 
 		newNode.MultipleOf = nil
-- 
2.43.0


From 9c0ec8f223c379be94fecd4d01a24dfd1d15b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 69/82] fix: leave out types that the keywords of a negated
 schema are not about

---
 not.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/not.go b/not.go
index 0b7aff4..9439b97 100644
--- a/not.go
+++ b/not.go
@@ -881,14 +881,47 @@ func notNodeHasValueConstraints(notNode schemaNode) bool {
 	return false
 }
 
+// getConstrainedTypes returns the types the keywords of a not node are about, in the event that they alone make up
+// the not node. Values of all other types match such a node. Nothing is returned if that can not be told.
+func getConstrainedTypes(notNode schemaNode) []string {
+	if notNode.Type != nil || notNode.Const != nil || notNode.Enum != nil || notNode.Ref != nil || notNode.If != nil ||
+		notNode.Not != nil || notNode.AllOf != nil || notNode.AnyOf != nil || notNode.OneOf != nil || hasMergedFields(notNode) {
+		return []string{}
+	}
+
+	types := []string{}
+	if notNode.MinLength != nil || notNode.MaxLength != nil || notNode.Pattern != nil || notNode.Format != nil {
+		types = append(types, typeString)
+	}
+	if notNode.Minimum != nil || notNode.Maximum != nil || notNode.ExclusiveMinimum != nil || notNode.ExclusiveMaximum != nil || notNode.MultipleOf != nil {
+		types = append(types, typeNumber, typeInteger)
+	}
+	if notNode.Properties != nil || notNode.PatternProperties != nil || notNode.AdditionalProperties != nil || notNode.Required != nil ||
+		notNode.MinProperties != nil || notNode.MaxProperties != nil {
+		types = append(types, typeObject)
+	}
+	if notNode.Items != nil || notNode.PrefixItems != nil || notNode.AdditionalItems != nil || notNode.UnevaluatedItems != nil ||
+		notNode.MinItems != nil || notNode.MaxItems != nil || notNode.Contains != nil || notNode.UniqueItems != nil {
+		types = append(types, typeArray)
+	}
+
+	return types
+}
+
 // Resolves the type for a node given the not node types
 func resolveType(node schemaNode, notNode schemaNode) (multipleType, error) {
 	nodeTypes := getNodeTypes(node, false)
 	notNodeTypes := expandNotTypes(getNodeTypes(notNode, true))
 	hasValueConstraints := notNodeHasValueConstraints(notNode)
+	constrainedTypes := getConstrainedTypes(notNode)
 	candidateNodeTypes := []string{}
 
 	for _, nodeType := range nodeTypes {
+		// Values of types that none of the keywords are about match the not node
+		if len(constrainedTypes) != 0 && !funk.ContainsString(constrainedTypes, nodeType) {
+			continue
+		}
+
 		if funk.ContainsString(notNodeTypes, nodeType) && !hasValueConstraints {
 			// This is a pure type exclusion (e.g., "not a string at all") — skip the type.
 			continue
-- 
2.43.0


From 8d062ebe88156b024000216fe213f8483e4b74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 70/82] fix: generate values for references into schemas that
 no values are generated from

---
 document.go         | 18 ++++++++++++++++--
 parse.go            | 12 ++++++++----
 reference.go        |  2 ++
 reference_hander.go | 39 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/document.go b/document.go
index 7934137..33d6340 100644
--- a/document.go
+++ b/document.go
@@ -227,6 +227,21 @@ func (r *documentResolver) SetDocumentBeingResolved(documentId string) {
 	r.documentCurrentlyBeingResolvedId = documentId
 }
 
+func (r *documentResolver) SetDocumentBeingParsed(documentId string) {
+	r.documentCurrentlyBeingParsedId = documentId
+	r.documentCurrentlyBeingResolvedId = documentId
+}
+
+// Resolves the schema at a path of a document that was loaded already
+func (r *documentResolver) ResolveLoadedNode(documentId string, path string) (*schemaNode, error) {
+	document, loaded := r.documents[documentId]
+	if !loaded {
+		return nil, fmt.Errorf("document '%s' is not loaded", documentId)
+	}
+
+	return resolveSubReferencePath(document, path, "")
+}
+
 func (r *documentResolver) HandleDeferredReferenceResolution(ref string, metadata *parserMetadata) (string, string, error) {
 	matches := util.RegexMatchNamedCaptureGroups(documentRegex, ref)
 	documentID, hasDocument := matches["document"]
@@ -430,8 +445,7 @@ func (r *documentResolver) ParseNextDocument(metadata *parserMetadata) (string,
 	r.externalDocumentsThatNeedParsing = r.externalDocumentsThatNeedParsing[1:]
 
 	// Resolve the document
-	r.documentCurrentlyBeingParsedId = nextDocumentId
-	r.documentCurrentlyBeingResolvedId = nextDocumentId
+	r.SetDocumentBeingParsed(nextDocumentId)
 	documentNode, err := r.resolveDocument(nextDocumentId)
 	if err != nil {
 		return nextDocumentId, fmt.Errorf("failed to resolve document '%s': %w", nextDocumentId, err)
diff --git a/parse.go b/parse.go
index 1e35bb5..627a425 100644
--- a/parse.go
+++ b/parse.go
@@ -283,10 +283,14 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 
 	generator, err := parseRoot(node, metadata)
 
-	for metadata.DocumentResolver.HasMoreDocumentsToParse() {
-		_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
-		if err != nil {
-			metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
+	for {
+		if metadata.DocumentResolver.HasMoreDocumentsToParse() {
+			_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
+			if err != nil {
+				metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
+			}
+		} else if !metadata.ReferenceHandler.ParseMissingTargets(metadata) {
+			break
 		}
 	}
 
diff --git a/reference.go b/reference.go
index b9cd8bb..666e235 100644
--- a/reference.go
+++ b/reference.go
@@ -38,6 +38,8 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 		return nil, fmt.Errorf("failed to handle deferred reference resolution for ref '%s': %w", *node.Ref, err)
 	}
 
+	metadata.ReferenceHandler.AddUsedReference(documentId, ref)
+
 	return referenceGenerator{
 		Document:         documentId,
 		ReferenceStr:     ref,
diff --git a/reference_hander.go b/reference_hander.go
index 8e35f80..0eb0601 100644
--- a/reference_hander.go
+++ b/reference_hander.go
@@ -23,6 +23,15 @@ type (
 		CurrentPath      string
 		References       map[string]map[string]reference
 		Errors           map[string]map[string]error
+
+		// References that generators have been created for
+		used []referenceTarget
+	}
+
+	// Schema within a document that a reference points to
+	referenceTarget struct {
+		Document string
+		Path     string
 	}
 
 	// This struct used to track a stack of resolved references
@@ -100,6 +109,36 @@ func (h *referenceHandler) AddIdReference(path string, node schemaNode, generato
 	}
 }
 
+// Keeps track of a reference that is looked up once values are generated
+func (h *referenceHandler) AddUsedReference(documentId string, path string) {
+	h.used = append(h.used, referenceTarget{Document: documentId, Path: path})
+}
+
+// ParseMissingTargets parses the targets of references that have not been parsed so far, given no values are
+// generated from where they are (e.g. a schema within a "not"). Returns false if there was nothing left to parse.
+func (h *referenceHandler) ParseMissingTargets(metadata *parserMetadata) bool {
+	used := h.used
+	h.used = nil
+
+	parsedTargets := false
+	for _, target := range used {
+		if _, exists := h.Lookup(target.Document, target.Path); exists || !strings.HasPrefix(target.Path, "#/") {
+			continue
+		}
+
+		node, err := metadata.DocumentResolver.ResolveLoadedNode(target.Document, target.Path)
+		if err != nil {
+			continue
+		}
+
+		metadata.DocumentResolver.SetDocumentBeingParsed(target.Document)
+		h.ParseNodeInScope(strings.TrimPrefix(target.Path, "#"), *node, metadata, schemaNode{Ref: &target.Path})
+		parsedTargets = true
+	}
+
+	return parsedTargets
+}
+
 func (h *referenceHandler) HandleError(err error, metadata *parserMetadata) {
 	documentId := h.documentResolver.GetDocumentIdCurrentlyBeingParsed()
 	h.Errors[h.CurrentPath][documentId] = err
-- 
2.43.0


From e886813a3ce0497642191e504774cb459f351dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 71/82] fix: never let one conditional undo what another one
 demands

---
 if.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/if.go b/if.go
index a6b3c30..0089692 100644
--- a/if.go
+++ b/if.go
@@ -13,6 +13,10 @@ type (
 		conditionFunc func(value any) bool
 		thenGenerator Generator
 		elseGenerator Generator
+
+		// Checks of values against "then" and "else" (only there if other conditions might change a value afterwards)
+		thenFunc func(value any) bool
+		elseFunc func(value any) bool
 	}
 
 	multipleIfConstraints struct {
@@ -67,6 +71,11 @@ func parseIf(node schemaNode, metadata *parserMetadata) (Generator, error) {
 			continue
 		}
 
+		if len(mergedIf) > 1 {
+			compiled.thenFunc = compileIfBody(ifStatement.Then, metadata, fmt.Sprintf("/if/%d/then", i))
+			compiled.elseFunc = compileIfBody(ifStatement.Else, metadata, fmt.Sprintf("/if/%d/else", i))
+		}
+
 		constraints = append(constraints, compiled)
 	}
 
@@ -142,6 +151,31 @@ func (s ifStatement) Compile(node schemaNode, metadata *parserMetadata, field st
 	}, nil
 }
 
+// Compiles a "then" or "else" in order to check values against it. Everything passes if that is not possible.
+func compileIfBody(bodyNode *schemaNode, metadata *parserMetadata, field string) func(value any) bool {
+	if bodyNode == nil {
+		return nil
+	}
+
+	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *bodyNode, fmt.Sprintf("%s/%s", metadata.ReferenceHandler.CurrentPath, field))
+	if err != nil {
+		return nil
+	}
+
+	return func(value any) bool {
+		return schema.Validate(value) == nil
+	}
+}
+
+// Returns if a value satisfies the "then" or "else" its condition demands
+func (g ifConstraint) isSatisfiedBy(value interface{}) bool {
+	if g.conditionFunc(value) {
+		return g.thenFunc == nil || g.thenFunc(value)
+	}
+
+	return g.elseFunc == nil || g.elseFunc(value)
+}
+
 // Attempt to satisfy the if constraint by shoving the generated value through the then subschma
 // and attempting to satisfy the clause again with the subsequent value.
 // Returns (value, true) if the constraint was satisfied
@@ -213,6 +247,11 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 			}
 		}
 
+		// What followed from one condition might have changed what the others depend on
+		for i := 0; allSatisfied && i < len(g.constraints); i++ {
+			allSatisfied = g.constraints[i].isSatisfiedBy(currentValue)
+		}
+
 		if allSatisfied {
 			return currentValue
 		}
-- 
2.43.0


From 9335ebfe205bfa2b2a494a2d51a8986e76774afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 72/82] fix: let conditions tell formats apart

---
 schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema.go b/schema.go
index 4f2f0cd..4aea86b 100644
--- a/schema.go
+++ b/schema.go
@@ -31,6 +31,9 @@ var pathSanitiseRegex = regexp.MustCompile(`[\/\#\-\.\,\s\.]`)
 func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaManager, error) {
 	jsonSchemaCompiler := jsonschema.NewCompiler()
 
+	// Formats are generated, so that conditions have to be able to tell them apart too
+	jsonSchemaCompiler.AssertFormat()
+
 	// To prevent external references from being inadvertently loaded or files from the local filesystem
 	// unless they are explicitly added to the schema manager by the upper level parser
 	jsonSchemaCompiler.UseLoader(internalOnlyLoader{documentResolver: resolver})
-- 
2.43.0


From 843897e102d957a1a9758a2d3d3a37204cfbbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 73/82] fix: report multiples that are too small for the
 numbers to generate

The number of the multiple to generate overflowed, so that a value was generated that cannot be serialised.
---
 number.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index ab5b370..a09793d 100644
--- a/number.go
+++ b/number.go
@@ -140,8 +140,11 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 			return 0, 0, errors.New("integer type cannot have a non-integer multipleOf")
 		}
 
-		if countMultiplesInRange(min, max, multipleOf) == 0 {
+		multiples := countMultiplesInRange(min, max, multipleOf)
+		if multiples == 0 {
 			return 0, 0, errors.New("minimum and maximum do not allow for any multiples of multipleOf")
+		} else if math.IsInf(multiples, 0) || math.IsNaN(multiples) {
+			return 0, 0, fmt.Errorf("multipleOf is too small for the given range (multipleOf: %e, min: %e, max: %e)", multipleOf, min, max)
 		}
 	}
 	return min, max, nil
-- 
2.43.0


From f27c6c74b388827f7d449c732709c83b3109b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 74/82] fix: do not tell zeros apart by their sign

Given values are compared by their JSON 0 and -0 were taken for different
values of enum and const, so that both could end up in an array with unique items.
---
 json.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/json.go b/json.go
index 4251279..894c2f1 100644
--- a/json.go
+++ b/json.go
@@ -166,6 +166,14 @@ func (s *schemaNode) UnmarshalJSON(data []byte) error {
 	}
 	*s = schemaNode(alias)
 
+	if s.Enum != nil {
+		unsignZeros(*s.Enum)
+	}
+
+	if s.Const != nil {
+		*s.Const = unsignZeros(*s.Const)
+	}
+
 	// Only ambiguous when the standard pass left Const nil — a non-null
 	// const value is already correctly populated.
 	if s.Const == nil {
@@ -181,3 +189,23 @@ func (s *schemaNode) UnmarshalJSON(data []byte) error {
 
 	return nil
 }
+
+// Zeros are equal regardless of their sign, given values are compared by their JSON there must be one way to write them
+func unsignZeros(value interface{}) interface{} {
+	switch v := value.(type) {
+	case float64:
+		if v == 0 {
+			return 0.0
+		}
+	case []interface{}:
+		for i, item := range v {
+			v[i] = unsignZeros(item)
+		}
+	case map[string]interface{}:
+		for key, item := range v {
+			v[key] = unsignZeros(item)
+		}
+	}
+
+	return value
+}
-- 
2.43.0


From ba3cc4baf63d195f7b5643d0c8b6b9169617e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 75/82] fix: combine multiples of every magnitude

Parsing never ended when one of them overflowed once both were scaled to integers,
and multiples below 0.000001 resulted in no number at all.
---
 internal/util/util.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index aab4cf3..e8dc674 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,9 +2,10 @@ package util
 
 import (
 	"encoding/json"
-	"fmt"
 	"math"
+	"math/big"
 	"regexp"
+	"strconv"
 	"strings"
 
 	"github.com/thoas/go-funk"
@@ -178,15 +179,6 @@ func MaxFloatPtr[T Number](a ...*T) *T {
 	return max
 }
 
-func countDecimalPlaces(f float64) float64 {
-	s := strings.Split(strings.TrimRight(strings.TrimRight(fmt.Sprintf("%f", f), "0"), "."), ".")
-	if len(s) < 2 {
-		return 0
-	}
-
-	return float64(len(s[1]))
-}
-
 // FindHcf finds the highest common factor between two float64 pointers
 func FindHcf(a *float64, b *float64) *float64 {
 	result := new(float64)
@@ -209,20 +201,34 @@ func FindHcf(a *float64, b *float64) *float64 {
 	}
 
 	// Normalise both to integers
-	scale := math.Pow(10, float64(math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b))))
-	intA := math.Round(*a * scale)
-	intB := math.Round(*b * scale)
+	ratA, ratB := decimalRat(*a), decimalRat(*b)
+	scale := new(big.Int).Mul(ratA.Denom(), ratB.Denom())
+	intA := new(big.Int).Mul(ratA.Num(), ratB.Denom())
+	intB := new(big.Int).Mul(ratB.Num(), ratA.Denom())
 
 	// Otherwise use the lowest value both of them divide
-	divisor, remainder := intA, intB
-	for remainder != 0 {
-		divisor, remainder = remainder, math.Mod(divisor, remainder)
+	divisor := new(big.Int).GCD(nil, nil, new(big.Int).Abs(intA), new(big.Int).Abs(intB))
+	multiple := new(big.Int).Mul(new(big.Int).Quo(intA, divisor), intB)
+	*result, _ = new(big.Rat).SetFrac(multiple, scale).Float64()
+
+	// Only zero is left if there is no such number that can be represented
+	if math.IsInf(*result, 0) {
+		*result = math.Copysign(math.MaxFloat64, *result)
 	}
 
-	*result = (intA / divisor * intB) / scale
 	return result
 }
 
+// Returns the number as it is written down (e.g. exactly 1/10 for 0.1)
+func decimalRat(f float64) *big.Rat {
+	rat, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'e', -1, 64))
+	if !ok {
+		return new(big.Rat)
+	}
+
+	return rat
+}
+
 func GetZeroIfNil[T any](f *T, zeroValue T) T {
 	if f == nil {
 		return zeroValue
-- 
2.43.0


From 80c9f9c7a78654eee7678b26f3d554a406c737ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 76/82] fix: never take numbers for strings of their digits

---
 schema.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/schema.go b/schema.go
index 4aea86b..77155c0 100644
--- a/schema.go
+++ b/schema.go
@@ -2,11 +2,14 @@ package chaff
 
 import (
 	"fmt"
+	"reflect"
 	"regexp"
+	"slices"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/santhosh-tekuri/jsonschema/v6"
 	jsonschemaV6 "github.com/santhosh-tekuri/jsonschema/v6"
+	"github.com/santhosh-tekuri/jsonschema/v6/kind"
 )
 
 type (
@@ -21,6 +24,12 @@ type (
 	internalOnlyLoader struct {
 		documentResolver *documentResolver
 	}
+
+	// Checks "enum" and "const" on top of the schema compiler, which takes numbers
+	// for equal to strings of their digits (e.g. 1 and "1")
+	literalsExtension struct {
+		choices [][]interface{}
+	}
 )
 
 var pathSanitiseRegex = regexp.MustCompile(`[\/\#\-\.\,\s\.]`)
@@ -34,6 +43,9 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	// Formats are generated, so that conditions have to be able to tell them apart too
 	jsonSchemaCompiler.AssertFormat()
 
+	jsonSchemaCompiler.RegisterVocabulary(&jsonschemaV6.Vocabulary{URL: "urn:go-chaff:literals", Compile: compileLiterals})
+	jsonSchemaCompiler.AssertVocabs()
+
 	// To prevent external references from being inadvertently loaded or files from the local filesystem
 	// unless they are explicitly added to the schema manager by the upper level parser
 	jsonSchemaCompiler.UseLoader(internalOnlyLoader{documentResolver: resolver})
@@ -124,3 +136,30 @@ func (l internalOnlyLoader) Load(url string) (any, error) {
 
 	return util.UnmarshalJsonStringToMap(util.MarshalJsonToString(document)), nil
 }
+
+func compileLiterals(_ *jsonschemaV6.CompilerContext, schema map[string]interface{}) (jsonschemaV6.SchemaExt, error) {
+	extension := literalsExtension{}
+	if enum, ok := schema["enum"].([]interface{}); ok {
+		extension.choices = append(extension.choices, enum)
+	}
+
+	if constant, ok := schema["const"]; ok {
+		extension.choices = append(extension.choices, []interface{}{constant})
+	}
+
+	if len(extension.choices) == 0 {
+		return nil, nil
+	}
+
+	return extension, nil
+}
+
+func (e literalsExtension) Validate(ctx *jsonschemaV6.ValidatorContext, value interface{}) {
+	// Generated values are compared the way they are serialised
+	value = util.UnmarshalJsonStringToMap(util.MarshalJsonToString(value))
+	for _, choices := range e.choices {
+		if !slices.ContainsFunc(choices, func(choice interface{}) bool { return reflect.DeepEqual(value, choice) }) {
+			ctx.AddError(&kind.Enum{Got: value, Want: choices})
+		}
+	}
+}
-- 
2.43.0


From b25198935ee0ced23ea46eaec1bb7d4ff70c5fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 77/82] fix: keep what contained items have to contain
 themselves

---
 array.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 7bebb7b..cef6bef 100644
--- a/array.go
+++ b/array.go
@@ -240,7 +240,9 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 		if err != nil {
 			return nil, fmt.Errorf("error merging 'contains' with 'items' schema: %w", err)
 		}
-		mergedContains.Contains = nil
+
+		// Keep track of the references that were merged to stop at circular ones
+		return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata, *node.Items.Node, *node.Contains)
 	}
 
 	return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata)
-- 
2.43.0


From 01991f4413d1003875f66e8dfb12da23b759caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 78/82] fix: count no names for patternProperties without
 patterns

---
 object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 156adf9..2b6989b 100644
--- a/object.go
+++ b/object.go
@@ -67,7 +67,7 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	// Validate additionalProperties
 	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
-	if additionalProperties.IsFalse && node.PatternProperties == nil && minProperties > len(properties) {
+	if additionalProperties.IsFalse && len(util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})) == 0 && minProperties > len(properties) {
 		return nullGenerator{}, fmt.Errorf("given additional properties are not allowed and there are no pattern properties the minProperties must be less than or equal to the number of"+
 			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
 	}
-- 
2.43.0


From db47571dc93b98950688fc5026e482df0f63c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:49 +0000
Subject: [PATCH 79/82] fix: make contained items match additionalItems too

---
 array.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index cef6bef..27360a2 100644
--- a/array.go
+++ b/array.go
@@ -234,15 +234,23 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 
 	var err error = nil
 	mergedContains := *node.Contains
-	// Merge with items if possible to constrain the contains generator further to aling with item constraints
+	// Merge with what items after the tuple have to match if possible to constrain the contains generator further
+	// (Note additionalItems only has a meaning next to the legacy array form of items)
+	var remainingItems *schemaNode = nil
 	if node.Items != nil && node.Items.Node != nil {
-		mergedContains, err = mergeSchemaNodes(metadata, *node.Items.Node, *node.Contains)
+		remainingItems = node.Items.Node
+	} else if node.Items != nil && node.Items.Nodes != nil && node.AdditionalItems != nil {
+		remainingItems = node.AdditionalItems.Schema
+	}
+
+	if remainingItems != nil {
+		mergedContains, err = mergeSchemaNodes(metadata, *remainingItems, *node.Contains)
 		if err != nil {
 			return nil, fmt.Errorf("error merging 'contains' with 'items' schema: %w", err)
 		}
 
 		// Keep track of the references that were merged to stop at circular ones
-		return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata, *node.Items.Node, *node.Contains)
+		return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata, *remainingItems, *node.Contains)
 	}
 
 	return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata)
-- 
2.43.0


From c7016e1a504317bb2c72d23d182360216d051554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:51 +0000
Subject: [PATCH 80/82] fix: restrict merged properties by additionalProperties
 of the other schema

---
 merge.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 35826fd..7f3f730 100644
--- a/merge.go
+++ b/merge.go
@@ -46,10 +46,14 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
-		// Merge object properties
-		mergedNode.Properties = mergeProperties(metadata, mergedNode.Properties, node.Properties)
+		// Merge object properties. Names that only one of the nodes has a schema for are additional properties of the other one
+		mergedProperties := restrictToAdditionalProperties(metadata, "properties", mergedNode.Properties, node)
+		nodeProperties := restrictToAdditionalProperties(metadata, "properties", node.Properties, mergedNode)
+		mergedPatternProperties := restrictToAdditionalProperties(metadata, "patternProperties", mergedNode.PatternProperties, node)
+		nodePatternProperties := restrictToAdditionalProperties(metadata, "patternProperties", node.PatternProperties, mergedNode)
+		mergedNode.Properties = mergeProperties(metadata, mergedProperties, nodeProperties)
+		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedPatternProperties, nodePatternProperties)
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
-		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
 
 		// Merge array items
 		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode.PrefixItems, node.PrefixItems)
@@ -223,6 +227,48 @@ func mergeProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode,
 	return &mergedProperties
 }
 
+// restrictToAdditionalProperties restricts properties (or patternProperties) to what the additionalProperties
+// of another node allow for those names (or patterns) that the node has no schema of its own for.
+func restrictToAdditionalProperties(metadata *parserMetadata, field string, propertiesPtr *map[string]schemaNode, node schemaNode) *map[string]schemaNode {
+	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
+	if propertiesPtr == nil || (!additionalProperties.IsFalse && additionalProperties.Schema == nil) {
+		return propertiesPtr
+	}
+
+	restrictedProperties := map[string]schemaNode{}
+	for key, value := range *propertiesPtr {
+		if isOwnProperty(field, key, node) {
+			restrictedProperties[key] = value
+			continue
+		}
+
+		if additionalProperties.IsFalse {
+			continue
+		}
+
+		merged, err := mergeSchemaNodes(metadata, value, *additionalProperties.Schema)
+		if err != nil {
+			errPath := fmt.Sprintf("/%s/%s/config_merge_error", field, key)
+			metadata.Errors.AddErrorWithSubpath(errPath, err)
+			warnConfigMergeError(metadata, fmt.Sprintf("%s/%s", field, key), err)
+		}
+		restrictedProperties[key] = merged
+	}
+
+	return &restrictedProperties
+}
+
+// isOwnProperty tells if a node has a schema of its own for a name (or pattern) apart from its additionalProperties.
+func isOwnProperty(field string, key string, node schemaNode) bool {
+	if field == "patternProperties" {
+		_, isOwn := util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})[key]
+		return isOwn
+	}
+
+	_, isOwn := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})[key]
+	return isOwn || matchesAnyPattern(node.PatternProperties, key)
+}
+
 // mergePatternProperties merges two sets of pattern properties using the same
 // strategy as mergeProperties.
 func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode, nodePtr *map[string]schemaNode) *map[string]schemaNode {
-- 
2.43.0


From 776c613e9c96762c9536a0856d1570571b178893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 81/82] fix: restrict merged tuple items by items of the other
 schema

---
 merge.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 7f3f730..23cdb95 100644
--- a/merge.go
+++ b/merge.go
@@ -56,7 +56,8 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
 
 		// Merge array items
-		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode.PrefixItems, node.PrefixItems)
+		mergedPrefixItems, nodePrefixItems := alignPrefixItems(mergedNode, node)
+		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedPrefixItems, nodePrefixItems)
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
 		mergedNode.UnevaluatedItems = mergeNodeOrFalse(metadata, mergedNode.UnevaluatedItems, node.UnevaluatedItems, "unevaluatedItems")
@@ -294,6 +295,36 @@ func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]sche
 	return &mergedPatternProperties
 }
 
+// alignPrefixItems extends the shorter one of two tuples to the length of the other one by the schema its node has for
+// the items that follow. Where no items may follow both tuples end there.
+func alignPrefixItems(mergedNode schemaNode, node schemaNode) (*[]schemaNode, *[]schemaNode) {
+	longer, shorter := util.GetZeroIfNil(mergedNode.PrefixItems, nil), util.GetZeroIfNil(node.PrefixItems, nil)
+	items := util.GetZeroIfNil(node.Items, itemsData{})
+	isNodeShorter := len(shorter) < len(longer)
+	if !isNodeShorter {
+		longer, shorter = shorter, longer
+		items = util.GetZeroIfNil(mergedNode.Items, itemsData{})
+	}
+
+	if len(shorter) == len(longer) || (items.Node == nil && !items.DisallowAdditionalItems) {
+		return mergedNode.PrefixItems, node.PrefixItems
+	}
+
+	if items.DisallowAdditionalItems {
+		longer = longer[:len(shorter)]
+	} else {
+		shorter = append([]schemaNode{}, shorter...)
+		for len(shorter) < len(longer) {
+			shorter = append(shorter, *items.Node)
+		}
+	}
+
+	if isNodeShorter {
+		return &longer, &shorter
+	}
+	return &shorter, &longer
+}
+
 // mergePrefixItems merges two prefix-item arrays by position. Where both sides
 // have an entry at the same index they are recursively merged; otherwise the
 // entry from whichever side has it is kept.
-- 
2.43.0


From 234520ae04ef259820348d168b06377fe98fe172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:39 +0000
Subject: [PATCH 82/82] fix: keep negated schemas in mind below conditions

---
 parse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index 627a425..f6bd1a8 100644
--- a/parse.go
+++ b/parse.go
@@ -385,16 +385,16 @@ func parseSchemaNode(node schemaNode, metadata *parserMetadata) (Generator, erro
 		return parseCombination(node, metadata)
 	}
 
+	// Handle conditional nodes (before not, as both branches have to stay clear of negated schemas, too)
+	if node.If != nil || len(node.mergedIf) != 0 {
+		return parseIf(node, metadata)
+	}
+
 	// Handle not nodes
 	if node.Not != nil || len(node.mergedNot) > 0 {
 		return parseNot(node, metadata)
 	}
 
-	// Handle conditional nodes
-	if node.If != nil || len(node.mergedIf) != 0 {
-		return parseIf(node, metadata)
-	}
-
 	// Handle enum nodes
 	if node.Enum != nil {
 		return parseEnum(node, metadata)
-- 
2.43.0

