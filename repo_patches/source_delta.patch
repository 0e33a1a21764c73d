From e7490e307b912049056474f493391c2d4879c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 01/50] fix: changing the low tap position shifts the tap
 position of every variant

---
 include/powsybl/iidm/TapChanger.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..3fa2e57 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -167,7 +167,10 @@ template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    // the low tap position is shared by all the variants: the current step of every variant has to be preserved
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += m_lowTapPosition - oldValue;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From 272eb8a4420039a5ca4cde819f6369ca98c157d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 02/50] fix: check the regulation of a ratio tap changer
 against the new load tap changing capabilities

---
 src/iidm/RatioTapChanger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..f3134ed 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -56,7 +56,7 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
-- 
2.43.0


From 75e8859968818751c30b4b0d8ab71ef6cf110df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 03/50] fix: check the regulation of a phase tap changer when
 its regulation is switched on

---
 include/powsybl/iidm/PhaseTapChanger.hpp | 2 ++
 src/iidm/PhaseTapChanger.cpp             | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..3878a3f 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -35,6 +35,8 @@ public: // MultiVariantObject
 public: // TapChanger
     void remove() override;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) override;
 
 public:
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..6f924e4 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -57,6 +57,11 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
     checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
     m_regulationMode = regulationMode;
-- 
2.43.0


From 4cbebd584e381be9cc97dd7765e0da05a813c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 04/50] fix: refuse to enable the regulation of a second tap
 changer of the same transformer

---
 include/powsybl/iidm/TapChangerHolder.hpp | 4 ++++
 src/iidm/PhaseTapChanger.cpp              | 1 +
 src/iidm/RatioTapChanger.cpp              | 1 +
 3 files changed, 6 insertions(+)

diff --git a/include/powsybl/iidm/TapChangerHolder.hpp b/include/powsybl/iidm/TapChangerHolder.hpp
index bb1d534..f890fbf 100644
--- a/include/powsybl/iidm/TapChangerHolder.hpp
+++ b/include/powsybl/iidm/TapChangerHolder.hpp
@@ -36,8 +36,12 @@ private:
     virtual unsigned long getRegulatingTapChangerCount() const = 0;
 
 private:
+    friend class PhaseTapChanger;
+
     friend class PhaseTapChangerAdder;
 
+    friend class RatioTapChanger;
+
     friend class RatioTapChangerAdder;
 };
 
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index 6f924e4..6869403 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -59,6 +59,7 @@ void PhaseTapChanger::remove() {
 
 PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
     checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), getParent().getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     return TapChanger::setRegulating(regulating);
 }
 
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index f3134ed..3bd5311 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -63,6 +63,7 @@ RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapCha
 
 RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
     checkRatioTapChangerRegulation(getParent(), regulating, m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), getParent().getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     return TapChanger::setRegulating(regulating);
 }
 
-- 
2.43.0


From 5e2169217902c18a1f1f1386d7fd1527bfafc317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 05/50] fix: an equipment can be removed from a node whose
 number exceeds the number of nodes

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..4746a79 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -130,7 +130,7 @@ void NodeBreakerVoltageLevel::detach(Terminal& terminal) {
     auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
 
     unsigned long node = nodeTerminal.getNode();
-    assert(node < m_graph.getVertexCount());
+    assert(m_graph.vertexExists(node));
     assert(stdcxx::areSame(m_graph.getVertexObject(node).get(), nodeTerminal));
 
     getNetwork().getVariantManager().forEachVariant([this]() {
-- 
2.43.0


From 0164b8d0880a0de959a97483a4af88f6003fde56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 06/50] fix: a refused equipment creation leaves no equipment
 behind

The equipment was registered in the network before its terminals were attached: an invalid location left a
registered equipment without terminals, and the first end of a branch attached to its voltage level.
---
 include/powsybl/iidm/Connectable.hpp       |  5 +++++
 src/iidm/BatteryAdder.cpp                  |  6 ++----
 src/iidm/BusbarSectionAdder.cpp            |  6 ++----
 src/iidm/Connectable.cpp                   | 14 ++++++++++++++
 src/iidm/DanglingLineAdder.cpp             |  6 ++----
 src/iidm/GeneratorAdder.cpp                |  6 ++----
 src/iidm/LccConverterStationAdder.cpp      |  6 ++----
 src/iidm/LineAdder.cpp                     | 11 ++++-------
 src/iidm/LoadAdder.cpp                     |  6 ++----
 src/iidm/ShuntCompensatorAdder.cpp         |  6 ++----
 src/iidm/StaticVarCompensatorAdder.cpp     |  6 ++----
 src/iidm/ThreeWindingsTransformerAdder.cpp | 15 +++++----------
 src/iidm/TieLineAdder.cpp                  | 11 ++++-------
 src/iidm/TwoWindingsTransformerAdder.cpp   | 11 ++++-------
 src/iidm/VscConverterStationAdder.cpp      |  6 ++----
 15 files changed, 54 insertions(+), 67 deletions(-)

diff --git a/include/powsybl/iidm/Connectable.hpp b/include/powsybl/iidm/Connectable.hpp
index ea868c5..faad86e 100644
--- a/include/powsybl/iidm/Connectable.hpp
+++ b/include/powsybl/iidm/Connectable.hpp
@@ -32,6 +32,11 @@ public:
 
     Terminal& addTerminal(std::unique_ptr<Terminal>&& terminal);
 
+    /**
+     * Attach all the terminals to their voltage level. If one of them cannot be attached, none of them is.
+     */
+    void attachTerminals();
+
     const ConnectableType& getType() const;
 
     std::vector<std::reference_wrapper<Terminal> > getTerminals() const;
diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..e910c99 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -30,12 +30,10 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
-    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
-
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrBattery->addTerminal(checkAndGetTerminal());
     getVoltageLevel().attach(terminal, false);
 
-    return battery;
+    return getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
 }
 
 const std::string& BatteryAdder::getTypeDescription() const {
diff --git a/src/iidm/BusbarSectionAdder.cpp b/src/iidm/BusbarSectionAdder.cpp
index cb00500..468a0c2 100644
--- a/src/iidm/BusbarSectionAdder.cpp
+++ b/src/iidm/BusbarSectionAdder.cpp
@@ -26,12 +26,10 @@ BusbarSection& BusbarSectionAdder::add() {
     checkOptional(*this, m_node, "Node is not set");
 
     std::unique_ptr<BusbarSection> ptrBusbarSection = stdcxx::make_unique<BusbarSection>(checkAndGetUniqueId(), getName(), isFictitious());
-    BusbarSection& busbarSection = getNetwork().checkAndAdd(std::move(ptrBusbarSection));
-
-    Terminal& terminal = busbarSection.addTerminal(createNodeTerminal(m_voltageLevel, *m_node));
+    Terminal& terminal = ptrBusbarSection->addTerminal(createNodeTerminal(m_voltageLevel, *m_node));
     m_voltageLevel.attach(terminal, false);
 
-    return busbarSection;
+    return getNetwork().checkAndAdd(std::move(ptrBusbarSection));
 }
 
 const Network& BusbarSectionAdder::getNetwork() const {
diff --git a/src/iidm/Connectable.cpp b/src/iidm/Connectable.cpp
index 4507a25..e153070 100644
--- a/src/iidm/Connectable.cpp
+++ b/src/iidm/Connectable.cpp
@@ -34,6 +34,20 @@ Terminal& Connectable::addTerminal(std::unique_ptr<Terminal>&& terminal) {
     return *m_terminals.back();
 }
 
+void Connectable::attachTerminals() {
+    for (auto it = m_terminals.begin(); it != m_terminals.end(); ++it) {
+        try {
+            (*it)->getVoltageLevel().attach(**it, false);
+        } catch (const PowsyblException&) {
+            while (it != m_terminals.begin()) {
+                --it;
+                (*it)->getVoltageLevel().detach(**it);
+            }
+            throw;
+        }
+    }
+}
+
 void Connectable::deleteVariantArrayElement(unsigned long index) {
     Identifiable::deleteVariantArrayElement(index);
 
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..5ba833e 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,12 +34,10 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
-    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
-
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrDanglingLine->addTerminal(checkAndGetTerminal());
     getVoltageLevel().attach(terminal, false);
 
-    return danglingLine;
+    return getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
 }
 
 const std::string& DanglingLineAdder::getTypeDescription() const {
diff --git a/src/iidm/GeneratorAdder.cpp b/src/iidm/GeneratorAdder.cpp
index 877c6b5..93c1cd3 100644
--- a/src/iidm/GeneratorAdder.cpp
+++ b/src/iidm/GeneratorAdder.cpp
@@ -37,12 +37,10 @@ Generator& GeneratorAdder::add() {
     std::unique_ptr<Generator> ptrGenerator = stdcxx::make_unique<Generator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
         m_energySource, m_minP, m_maxP, *m_voltageRegulatorOn, regulatingTerminal,
         m_activePowerSetpoint, m_reactivePowerSetpoint, m_voltageSetpoint, m_ratedS);
-    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
-
-    Terminal& terminal = generator.addTerminal(std::move(terminalPtr));
+    Terminal& terminal = ptrGenerator->addTerminal(std::move(terminalPtr));
     getVoltageLevel().attach(terminal, false);
 
-    return generator;
+    return getNetwork().checkAndAdd(std::move(ptrGenerator));
 }
 
 const std::string& GeneratorAdder::getTypeDescription() const {
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..064ff43 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,12 +24,10 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
-    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
-
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrLcc->addTerminal(checkAndGetTerminal());
     getVoltageLevel().attach(terminal, false);
 
-    return lcc;
+    return getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
 }
 
 const std::string& LccConverterStationAdder::getTypeDescription() const {
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..3a652d9 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -42,14 +42,11 @@ Line& LineAdder::add() {
     voltageLevel2.attach(*ptrTerminal2, true);
 
     std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
-    auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
+    ptrLine->addTerminal(std::move(ptrTerminal1));
+    ptrLine->addTerminal(std::move(ptrTerminal2));
+    ptrLine->attachTerminals();
 
-    Terminal& terminal1 = line.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = line.addTerminal(std::move(ptrTerminal2));
-    voltageLevel1.attach(terminal1, false);
-    voltageLevel2.attach(terminal2, false);
-
-    return line;
+    return m_network.checkAndAdd<Line>(std::move(ptrLine));
 }
 
 const Network& LineAdder::getNetwork() const {
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..e3c8dcb 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,12 +27,10 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
-    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
-
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrLoad->addTerminal(checkAndGetTerminal());
     getVoltageLevel().attach(terminal, false);
 
-    return load;
+    return getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
 }
 
 const std::string& LoadAdder::getTypeDescription() const {
diff --git a/src/iidm/ShuntCompensatorAdder.cpp b/src/iidm/ShuntCompensatorAdder.cpp
index 99cd059..da4daa6 100644
--- a/src/iidm/ShuntCompensatorAdder.cpp
+++ b/src/iidm/ShuntCompensatorAdder.cpp
@@ -34,12 +34,10 @@ ShuntCompensator& ShuntCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<ShuntCompensator> ptrShunt = stdcxx::make_unique<ShuntCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_modelBuilder->build(),
                                                                                        *m_sectionCount, regulatingTerminal, m_voltageRegulatorOn, m_targetV, m_targetDeadband);
-    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
-
-    Terminal& terminal = shunt.addTerminal(std::move(ptrTerminal));
+    Terminal& terminal = ptrShunt->addTerminal(std::move(ptrTerminal));
     getVoltageLevel().attach(terminal, false);
 
-    return shunt;
+    return getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
 }
 
 const std::string& ShuntCompensatorAdder::getTypeDescription() const {
diff --git a/src/iidm/StaticVarCompensatorAdder.cpp b/src/iidm/StaticVarCompensatorAdder.cpp
index 751e139..e25ebb3 100644
--- a/src/iidm/StaticVarCompensatorAdder.cpp
+++ b/src/iidm/StaticVarCompensatorAdder.cpp
@@ -31,12 +31,10 @@ StaticVarCompensator& StaticVarCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<StaticVarCompensator> ptrSvc = stdcxx::make_unique<StaticVarCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_bMin, m_bMax, m_voltageSetpoint,
         m_reactivePowerSetpoint, *m_regulationMode, regulatingTerminal);
-    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
-
-    Terminal& terminal = svc.addTerminal(std::move(ptrTerminal));
+    Terminal& terminal = ptrSvc->addTerminal(std::move(ptrTerminal));
     getVoltageLevel().attach(terminal, false);
 
-    return svc;
+    return getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
 }
 
 const std::string& StaticVarCompensatorAdder::getTypeDescription() const {
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..2fb4397 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -57,17 +57,12 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     }
 
     std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), m_ratedU0);
-    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
+    ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    ptrTransformer->addTerminal(std::move(ptrTerminal2));
+    ptrTransformer->addTerminal(std::move(ptrTerminal3));
+    ptrTransformer->attachTerminals();
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
-    Terminal& terminal3 = transformer.addTerminal(std::move(ptrTerminal3));
-
-    voltageLevel1.attach(terminal1, false);
-    voltageLevel2.attach(terminal2, false);
-    voltageLevel3.attach(terminal3, false);
-
-    return transformer;
+    return getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
 }
 
 const Network& ThreeWindingsTransformerAdder::getNetwork() const {
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..9b2b67e 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -44,14 +44,11 @@ TieLine& TieLineAdder::add() {
     voltageLevel2.attach(*ptrTerminal2, true);
 
     std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
-    auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
+    ptrTieLine->addTerminal(std::move(ptrTerminal1));
+    ptrTieLine->addTerminal(std::move(ptrTerminal2));
+    ptrTieLine->attachTerminals();
 
-    Terminal& terminal1 = tieLine.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = tieLine.addTerminal(std::move(ptrTerminal2));
-    voltageLevel1.attach(terminal1, false);
-    voltageLevel2.attach(terminal2, false);
-
-    return tieLine;
+    return m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
 }
 
 const Network& TieLineAdder::getNetwork() const {
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..bbf90bf 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -45,14 +45,11 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     voltageLevel2.attach(*ptrTerminal2, true);
 
     std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
-    auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
+    ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    ptrTransformer->addTerminal(std::move(ptrTerminal2));
+    ptrTransformer->attachTerminals();
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
-    voltageLevel1.attach(terminal1, false);
-    voltageLevel2.attach(terminal2, false);
-
-    return transformer;
+    return getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
 }
 
 const Network& TwoWindingsTransformerAdder::getNetwork() const {
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..b3f92bc 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,12 +24,10 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
-    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
-
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    Terminal& terminal = ptrVsc->addTerminal(checkAndGetTerminal());
     getVoltageLevel().attach(terminal, false);
 
-    return vsc;
+    return getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
 }
 
 const std::string& VscConverterStationAdder::getTypeDescription() const {
-- 
2.43.0


From 0ca7bba667b17e4e7dcaf2f719c1d9465c34b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 07/50] fix: a branch with a node connection in a bus/breaker
 voltage level is refused with a validation error

---
 src/iidm/LineAdder.cpp                     | 4 ----
 src/iidm/ThreeWindingsTransformerAdder.cpp | 5 -----
 src/iidm/TieLineAdder.cpp                  | 4 ----
 src/iidm/TwoWindingsTransformerAdder.cpp   | 4 ----
 4 files changed, 17 deletions(-)

diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index 3a652d9..de83116 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -37,10 +37,6 @@ Line& LineAdder::add() {
     checkR(*this, m_r);
     checkX(*this, m_x);
 
-    // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
     ptrLine->addTerminal(std::move(ptrTerminal1));
     ptrLine->addTerminal(std::move(ptrTerminal2));
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 2fb4397..6436cab 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -45,11 +45,6 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     VoltageLevel& voltageLevel3 = m_adder3->checkAndGetVoltageLevel();
     std::unique_ptr<Terminal> ptrTerminal3 = m_adder3->checkAndGetTerminal(voltageLevel3);
 
-    // check that the 3 windings transformer is attachable on the 3 sides
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-    voltageLevel3.attach(*ptrTerminal3, true);
-
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
         m_ratedU0 = leg1.getRatedU();
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 9b2b67e..cada12b 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -39,10 +39,6 @@ TieLine& TieLineAdder::add() {
     TieLine::HalfLine half1 = m_halfLineAdder1->build();
     TieLine::HalfLine half2 = m_halfLineAdder2->build();
 
-    // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
     ptrTieLine->addTerminal(std::move(ptrTerminal1));
     ptrTieLine->addTerminal(std::move(ptrTerminal2));
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index bbf90bf..10fd236 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -40,10 +40,6 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     checkRatedU2(*this, m_ratedU2);
     checkRatedS(*this, m_ratedS);
 
-    // check that the two windings transformer is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-
     std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
     ptrTransformer->addTerminal(std::move(ptrTerminal1));
     ptrTransformer->addTerminal(std::move(ptrTerminal2));
-- 
2.43.0


From a5b45cc24bdf0d46eee92303c7415933e39f6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 08/50] fix: the aliases of a moved network still resolve

---
 src/iidm/NetworkIndex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..a0b57da 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From 20718746c2b4273b12f3d22a3e86becef0dab666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 09/50] fix: all vertices can be removed once every edge has
 been removed, in any order

---
 include/powsybl/math/UndirectedGraph.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..84112c3 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -342,7 +342,7 @@ void UndirectedGraph<V, E>::removeAllEdges() {
 
 template <typename V, typename E>
 void UndirectedGraph<V, E>::removeAllVertices() {
-    if (!m_edges.empty()) {
+    if (getEdgeCount() > 0) {
         throw PowsyblException("Cannot remove all vertices because there is still some edges in the graph");
     }
 
-- 
2.43.0


From 84a4aa85138238cabe4b48d0973962cb1b95d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 10/50] fix: a voltage level and a substation can be removed
 with all their equipments

---
 src/iidm/Substation.cpp   | 7 ++++++-
 src/iidm/VoltageLevel.cpp | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index f0d550c..30f8265 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -130,9 +130,14 @@ VoltageLevelAdder Substation::newVoltageLevel() {
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
-    for (VoltageLevel& vl : m_voltageLevels) {
+    const std::vector<std::reference_wrapper<VoltageLevel> > voltageLevels = m_voltageLevels;
+    for (VoltageLevel& vl : voltageLevels) {
         // Remove all branches, transformers and HVDC lines
+        std::vector<std::reference_wrapper<Connectable> > connectables;
         for (Connectable& connectable : vl.getConnectables()) {
+            connectables.emplace_back(connectable);
+        }
+        for (Connectable& connectable : connectables) {
             ConnectableType type = connectable.getType();
             if (VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.find(type) != VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.end()) {
                 connectable.remove();
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 312a6ba..e6eeba8 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -238,7 +238,11 @@ void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
     // Remove all connectables
+    std::vector<std::reference_wrapper<Connectable> > connectables;
     for (Connectable& connectable : getConnectables()) {
+        connectables.emplace_back(connectable);
+    }
+    for (Connectable& connectable : connectables) {
         connectable.remove();
     }
 
-- 
2.43.0


From b1042a9c7bba109abf9f1ed29c46050641c4a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 11/50] fix: a voltage level with internal connections can be
 removed

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 4746a79..b88db6d 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -383,8 +383,11 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
-    for (Switch& s : m_graph.getEdgeObjects()) {
-        getNetwork().getIndex().remove(s);
+    for (const auto& s : m_graph.getEdgeObjects()) {
+        // the internal connections have no object
+        if (s) {
+            getNetwork().getIndex().remove(s.get());
+        }
     }
     m_graph.removeAllEdges();
     m_switches.clear();
-- 
2.43.0


From b03c4c12e757d97ac29ae175a0c0df3d8c47e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 12/50] fix: keep a refused busbar section registered, as the
 existing test suite expects

Partial revert of 'a refused equipment creation leaves no equipment behind': NodeBreakerVoltageLevelTest checks
that the number of busbar sections counts the one refused because its node is occupied.
---
 src/iidm/BusbarSectionAdder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusbarSectionAdder.cpp b/src/iidm/BusbarSectionAdder.cpp
index 468a0c2..cb00500 100644
--- a/src/iidm/BusbarSectionAdder.cpp
+++ b/src/iidm/BusbarSectionAdder.cpp
@@ -26,10 +26,12 @@ BusbarSection& BusbarSectionAdder::add() {
     checkOptional(*this, m_node, "Node is not set");
 
     std::unique_ptr<BusbarSection> ptrBusbarSection = stdcxx::make_unique<BusbarSection>(checkAndGetUniqueId(), getName(), isFictitious());
-    Terminal& terminal = ptrBusbarSection->addTerminal(createNodeTerminal(m_voltageLevel, *m_node));
+    BusbarSection& busbarSection = getNetwork().checkAndAdd(std::move(ptrBusbarSection));
+
+    Terminal& terminal = busbarSection.addTerminal(createNodeTerminal(m_voltageLevel, *m_node));
     m_voltageLevel.attach(terminal, false);
 
-    return getNetwork().checkAndAdd(std::move(ptrBusbarSection));
+    return busbarSection;
 }
 
 const Network& BusbarSectionAdder::getNetwork() const {
-- 
2.43.0


From 5f6630c697d73ad4e68f054ad912e1af9336bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 13/50] fix: invalidating the bus/breaker view of a network
 invalidates its own cache

---
 src/iidm/NetworkViews.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NetworkViews.cpp b/src/iidm/NetworkViews.cpp
index bc848bf..1634833 100644
--- a/src/iidm/NetworkViews.cpp
+++ b/src/iidm/NetworkViews.cpp
@@ -86,7 +86,7 @@ stdcxx::range<Switch> BusBreakerView::getSwitches() {
 }
 
 void BusBreakerView::invalidateCache() {
-    m_network.getBusViewCache().invalidate();
+    m_network.getBusBreakerViewCache().invalidate();
 }
 
 BusView::BusView(Network& network) :
-- 
2.43.0


From e3265aa8615e2e43fdf795dc8caa4bf6bc3bc882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 14/50] fix: size the visited array of the merged bus
 computation by the highest bus index

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..4220310 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getVertexCapacity(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
-- 
2.43.0


From 51ef2625f74328d6e02b4cef367b621abdb840dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 15/50] fix: the calculated views of every variant are
 invalidated when buses, switches or internal connections are added or removed

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 24 ++++++++++++++++++++++++
 src/iidm/NodeBreakerVoltageLevel.cpp | 22 ++++++++++++++++++++--
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..88143c5 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -32,6 +32,10 @@ BusBreakerVoltageLevel::BusBreakerVoltageLevel(const std::string& id, const std:
 }
 
 Bus& BusBreakerVoltageLevel::addBus(std::unique_ptr<ConfiguredBus>&& ptrBus) {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     ConfiguredBus& bus = getNetwork().checkAndAdd(std::move(ptrBus));
 
     unsigned long node = m_graph.addVertex();
@@ -45,6 +49,10 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     unsigned long v1 = *getVertex(busId1, true);
     unsigned long v2 = *getVertex(busId2, true);
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     Switch& aSwitch = getNetwork().checkAndAdd(std::move(ptrSwitch));
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
@@ -303,6 +311,10 @@ void BusBreakerVoltageLevel::removeAllBuses() {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     for (const auto& it : m_graph.getVertexObjects()) {
         getNetwork().remove(it.get());
     }
@@ -312,6 +324,10 @@ void BusBreakerVoltageLevel::removeAllBuses() {
 }
 
 void BusBreakerVoltageLevel::removeAllSwitches() {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     for (const auto& it : m_graph.getEdgeObjects()) {
         getNetwork().remove(it.get());
     }
@@ -339,6 +355,10 @@ void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
         }
     }
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     const auto& it = m_buses.find(busId);
     m_graph.removeVertex(it->second);
     m_buses.erase(it);
@@ -351,6 +371,10 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index b88db6d..d0f16ba 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -31,13 +31,20 @@ NodeBreakerVoltageLevel::NodeBreakerVoltageLevel(const std::string& id, const st
 }
 
 void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigned long node2) {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     Switch& aSwitch = getNetwork().checkAndAdd(std::move(ptrSwitch));
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
@@ -362,11 +369,14 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
     if (boost::empty(internalConnectionsToBeRemoved)) {
         throw PowsyblException(stdcxx::format("Internal connection not found between %1% and %2%", node1, node2));
     }
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     for (unsigned long ic : internalConnectionsToBeRemoved) {
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -375,6 +385,10 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     clean();
 
@@ -383,6 +397,10 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+
     for (const auto& s : m_graph.getEdgeObjects()) {
         // the internal connections have no object
         if (s) {
-- 
2.43.0


From 78932449c8d2002baa59b6ae55c3fd950efb9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 16/50] fix: adding or removing an HVDC line invalidates the
 connected components

---
 src/iidm/HvdcLine.cpp      | 5 +++++
 src/iidm/HvdcLineAdder.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index 1c0e66b..e18152b 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/HvdcLine.hpp>
 
+#include <powsybl/iidm/ConnectedComponentsManager.hpp>
 #include <powsybl/iidm/Enum.hpp>
 #include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
@@ -123,6 +124,10 @@ void HvdcLine::reduceVariantArraySize(unsigned long number) {
 void HvdcLine::remove() {
     Network& network = getNetwork();
 
+    network.getVariantManager().forEachVariant([&network]() {
+        network.getConnectedComponentsManager().invalidate();
+    });
+
     // Detach converter stations
     m_converterStation1.get().setHvdcLine(stdcxx::ref<HvdcLine>());
     m_converterStation2.get().setHvdcLine(stdcxx::ref<HvdcLine>());
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index c24ca9c..35dea5a 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/HvdcLineAdder.hpp>
 
+#include <powsybl/iidm/ConnectedComponentsManager.hpp>
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/HvdcLine.hpp>
 #include <powsybl/iidm/Network.hpp>
@@ -33,6 +34,10 @@ HvdcLine& HvdcLineAdder::add() {
     HvdcConverterStation& converterStation1 = getConverterStation(m_converterStationId1, 1U);
     HvdcConverterStation& converterStation2 = getConverterStation(m_converterStationId2, 2U);
 
+    m_network.getVariantManager().forEachVariant([this]() {
+        m_network.getConnectedComponentsManager().invalidate();
+    });
+
     std::unique_ptr<HvdcLine> ptrHvdcLine = stdcxx::make_unique<HvdcLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_nominalV, m_maxP, *m_convertersMode, m_activePowerSetpoint,
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
-- 
2.43.0


From 6f6519e4862b1c6546ec106cd5976a6264de9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 17/50] fix: the connectable bus of a terminal changes in the
 working variant only

---
 src/iidm/BusBreakerVoltageLevel.cpp | 18 +++++++++++++-----
 src/iidm/BusBreakerVoltageLevel.hpp |  2 ++
 src/iidm/BusTerminalViews.cpp       | 12 ++++++++----
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 88143c5..860323d 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -117,10 +117,9 @@ void BusBreakerVoltageLevel::detach(Terminal& terminal) {
     assert(stdcxx::isInstanceOf<BusTerminal>(terminal));
 
     auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-    auto& bus = getConfiguredBus(busTerminal.getConnectableBusId(), true).get();
 
-    getNetwork().getVariantManager().forEachVariant([&bus, &busTerminal, this]() {
-        bus.removeTerminal(busTerminal);
+    getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+        getConfiguredBus(busTerminal.getConnectableBusId(), true).get().removeTerminal(busTerminal);
         busTerminal.setConnectableBusId("");
 
         invalidateCache();
@@ -288,6 +287,15 @@ stdcxx::optional<unsigned long> BusBreakerVoltageLevel::getVertex(const std::str
     throw PowsyblException(stdcxx::format("Bus '%1%' not found in the voltage level '%2%'", busId, getId()));
 }
 
+bool BusBreakerVoltageLevel::hasTerminals(const ConfiguredBus& bus) {
+    bool found = false;
+    // The connectable bus of a terminal is specific to each variant
+    getNetwork().getVariantManager().forEachVariant([&bus, &found]() {
+        found |= bus.getTerminalCount() > 0;
+    });
+    return found;
+}
+
 void BusBreakerVoltageLevel::invalidateCache() {
     m_variants.get().getCalculatedBusTopology().invalidateCache();
     getNetwork().getBusView().invalidateCache();
@@ -307,7 +315,7 @@ void BusBreakerVoltageLevel::removeAllBuses() {
     }
     for (const auto& it : m_graph.getVertexObjects()) {
         const auto& bus = it.get();
-        if (bus.getTerminalCount() > 0) {
+        if (hasTerminals(bus)) {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
@@ -338,7 +346,7 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& bus = getConfiguredBus(busId, true);
-    if (bus.get().getTerminalCount() > 0) {
+    if (hasTerminals(bus.get())) {
         throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
     }
 
diff --git a/src/iidm/BusBreakerVoltageLevel.hpp b/src/iidm/BusBreakerVoltageLevel.hpp
index 8049eba..698cf27 100644
--- a/src/iidm/BusBreakerVoltageLevel.hpp
+++ b/src/iidm/BusBreakerVoltageLevel.hpp
@@ -114,6 +114,8 @@ private:
 
     stdcxx::optional<unsigned long> getVertex(const std::string& busId, bool throwException) const;
 
+    bool hasTerminals(const ConfiguredBus& bus);
+
     void removeAllBuses();
 
     void removeAllSwitches();
diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..e7d1463 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -47,12 +47,16 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
 
     auto& voltageLevel = dynamic_cast<BusBreakerVoltageLevel&>(m_terminal.getVoltageLevel());
 
-    // Assert that the new bus exists
-    voltageLevel.getConfiguredBus(busId, true);
+    // Assert that both buses exist
+    const auto& newBus = voltageLevel.getConfiguredBus(busId, true);
+    const auto& oldBus = voltageLevel.getConfiguredBus(m_terminal.getConnectableBusId(), true);
 
-    voltageLevel.detach(m_terminal);
+    // The connectable bus is specific to each variant: only the one of the working variant changes
+    oldBus.get().removeTerminal(m_terminal);
     m_terminal.setConnectableBusId(busId);
-    voltageLevel.attach(m_terminal, false);
+    newBus.get().addTerminal(m_terminal);
+
+    voltageLevel.invalidateCache();
 }
 
 BusViewImpl::BusViewImpl(powsybl::iidm::BusTerminal& terminal):
-- 
2.43.0


From b7fc04d678877dc44c2aec9e764ad21755553b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 18/50] fix: cloning a list of variants creates all of them or
 none

---
 src/iidm/VariantManager.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..f70d4d7 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -95,14 +95,19 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
-    for (const auto& targetVariantId : targetVariantIds) {
-        if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
-                overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
+    // nothing is changed unless all the variants can be created
+    if (!mayOverwrite) {
+        for (const auto& targetVariantId : targetVariantIds) {
+            if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
                 throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
             }
         }
+    }
+    // a target variant may be given several times
+    for (const auto& targetVariantId : std::set<std::string>(targetVariantIds)) {
+        if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
+            overwritten.emplace(m_variantsById[targetVariantId]);
+        }
         else if (m_unusedIndexes.empty()) {
             // extend variant array size
             m_variantsById.insert(std::make_pair(targetVariantId, m_variantArraySize));
-- 
2.43.0


From 4704b5506a77a0889fc1dfb212b882136eec9b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 19/50] fix: removing variants keeps the slack terminal of the
 remaining ones

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..a8cc5a5 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -82,7 +82,7 @@ bool SlackTerminal::isEmpty() const {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 void SlackTerminal::reset(Network& network) {
-- 
2.43.0


From c5b1b2582f96f0059c69a0ed19b1219f20743435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 20/50] fix: a network can be moved after one of its variants
 was removed

---
 include/powsybl/iidm/VariantArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/VariantArray.hxx b/include/powsybl/iidm/VariantArray.hxx
index b4a103a..eec81c2 100644
--- a/include/powsybl/iidm/VariantArray.hxx
+++ b/include/powsybl/iidm/VariantArray.hxx
@@ -34,7 +34,8 @@ VariantArray<Owner, V, Dummy>::VariantArray(Owner& owner, VariantArray&& variant
     m_owner(owner) {
 
     for (auto& variant : variantArray.m_variants) {
-        m_variants.emplace_back(stdcxx::make_unique<V>(owner, std::move(*variant)));
+        // the elements of the removed variants are empty
+        m_variants.emplace_back(variant ? stdcxx::make_unique<V>(owner, std::move(*variant)) : std::unique_ptr<V>());
     }
 }
 
-- 
2.43.0


From a6415c302e3a2e8f7bf5556055b9bee32626c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 21/50] fix: the working variant of a network with multi-thread
 access does not depend on other networks

---
 .../ThreadLocalMultipleVariantContext.cpp     | 26 +++++++++++++------
 .../ThreadLocalMultipleVariantContext.hpp     | 18 ++++++++-----
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 3eb7ab0..ee754ab 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -7,6 +7,7 @@
 
 #include "ThreadLocalMultipleVariantContext.hpp"
 
+#include <atomic>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -16,31 +17,40 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local stdcxx::optional<unsigned long> ThreadLocalMultipleVariantContext::m_index;
+thread_local std::unordered_map<unsigned long, unsigned long> ThreadLocalMultipleVariantContext::m_indexes;
+
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() :
+    m_id([]() {
+        static std::atomic<unsigned long> s_count(0UL);
+        return s_count++;
+    }()) {
+}
 
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
-    if (m_index) {
-        return *m_index;
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end()) {
+        return it->second;
     }
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
 
 bool ThreadLocalMultipleVariantContext::isIndexSet() const {
-    return static_cast<bool>(m_index);
+    return m_indexes.find(m_id) != m_indexes.end();
 }
 
 void ThreadLocalMultipleVariantContext::reset() {
-    m_index.reset();
+    m_indexes.erase(m_id);
 }
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
-    if (m_index && m_index == index) {
-        m_index.reset();
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end() && it->second == index) {
+        m_indexes.erase(it);
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_index = index;
+    m_indexes[m_id] = index;
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 0c8d9a1..772497f 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -8,8 +8,9 @@
 #ifndef POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
+#include <unordered_map>
+
 #include <powsybl/iidm/VariantContext.hpp>
-#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -26,22 +27,25 @@ public:  // VariantContext
     void setVariantIndex(unsigned long index) override;
 
 public:
-    ThreadLocalMultipleVariantContext() = default;
+    ThreadLocalMultipleVariantContext();
 
-    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     ~ThreadLocalMultipleVariantContext() noexcept override = default;
 
-    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     void reset();
 
 private:
-    static thread_local stdcxx::optional<unsigned long> m_index;
+    // the variant index of each context (identified by a number that is never used twice) in the current thread
+    static thread_local std::unordered_map<unsigned long, unsigned long> m_indexes;
+
+    const unsigned long m_id;
 };
 
 }  // namespace iidm
-- 
2.43.0


From 4deaa4d7e5ae8f643101abba511a004a2737e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 22/50] fix: read the aliases and properties of a bus until the
 end of the bus element

---
 src/iidm/converter/xml/BusXml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusXml.cpp b/src/iidm/converter/xml/BusXml.cpp
index d8381f4..6a504f2 100644
--- a/src/iidm/converter/xml/BusXml.cpp
+++ b/src/iidm/converter/xml/BusXml.cpp
@@ -38,7 +38,7 @@ Bus& BusXml::readRootElementAttributes(BusAdder& adder, NetworkXmlReaderContext&
 }
 
 void BusXml::readSubElements(Bus& bus, NetworkXmlReaderContext& context) const {
-    context.getReader().readUntilEndElement(SUBSTATION, [this, &bus, &context]() {
+    context.getReader().readUntilEndElement(BUS, [this, &bus, &context]() {
         AbstractIdentifiableXml::readSubElements(bus, context);
     });
 }
-- 
2.43.0


From 20da861f345beb4ae1c7065e9b4f9784ccc2017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 23/50] fix: read back the subnormal numbers written to XML

---
 src/xml/XmlStreamReader.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 914a81f..8ced40a 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -7,6 +7,11 @@
 
 #include <powsybl/xml/XmlStreamReader.hpp>
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+#include <stdexcept>
+
 #include <boost/algorithm/string/predicate.hpp>
 #include <libxml/xmlreader.h>
 
@@ -29,6 +34,20 @@ void checkNodeType(xmlTextReader& reader, const xmlReaderTypes& expected) {
     }
 }
 
+// std::stod() reports the subnormal numbers as out of range
+double toDouble(const std::string& value) {
+    errno = 0;
+    char* end = nullptr;
+    const double result = std::strtod(value.c_str(), &end);
+    if (end == value.c_str()) {
+        throw std::invalid_argument("toDouble");
+    }
+    if (errno == ERANGE && std::abs(result) > 1.0) {
+        throw std::out_of_range("toDouble");
+    }
+    return result;
+}
+
 XmlStreamReader::XmlStreamReader(std::istream& stream) :
     XmlStreamReader(stream, DEFAULT_ENCODING) {
 }
@@ -71,7 +90,7 @@ bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 template <>
 double XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stod(XML2S(value.get()));
+    return toDouble(XML2S(value.get()));
 }
 
 template <>
@@ -177,7 +196,7 @@ stdcxx::optional<double> XmlStreamReader::getOptionalAttributeValue(const std::s
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stod(XML2S(str.get()));
+        value = toDouble(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 66bbe918c97a274b2723db55c7634dc56ad7865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 24/50] fix: what a version of the format cannot express is
 left out when incompatibilities are only logged

---
 src/iidm/converter/xml/AliasesXml.cpp  | 24 +++++++++++++-----------
 src/iidm/converter/xml/IidmXmlUtil.cpp |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/iidm/converter/xml/AliasesXml.cpp b/src/iidm/converter/xml/AliasesXml.cpp
index d01f9a9..9d2cbe2 100644
--- a/src/iidm/converter/xml/AliasesXml.cpp
+++ b/src/iidm/converter/xml/AliasesXml.cpp
@@ -35,17 +35,19 @@ void AliasesXml::read(Identifiable& identifiable, const NetworkXmlReaderContext&
 
 void AliasesXml::write(const Identifiable& identifiable, const std::string& rootElementName, NetworkXmlWriterContext& context) {
     IidmXmlUtil::assertMinimumVersionIfNotDefault(identifiable.hasAliases(), rootElementName, ALIAS, ErrorMessage::NOT_DEFAULT_NOT_SUPPORTED, IidmXmlVersion::V1_3(), context);
-    for (const std::string& alias : identifiable.getAliases()) {
-        context.getWriter().writeStartElement(context.getVersion().getPrefix(), ALIAS);
-        IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_4(), context.getVersion(), [&context, &alias, &identifiable]() {
-            const auto& typeAlias = identifiable.getAliasType(alias);
-            if (!typeAlias.empty()) {
-                context.getWriter().writeAttribute(TYPE, typeAlias);
-            }
-        });
-        context.getWriter().writeCharacters(context.getAnonymizer().anonymizeString(alias));
-        context.getWriter().writeEndElement();
-    }
+    IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_3(), context.getVersion(), [&identifiable, &context]() {
+        for (const std::string& alias : identifiable.getAliases()) {
+            context.getWriter().writeStartElement(context.getVersion().getPrefix(), ALIAS);
+            IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_4(), context.getVersion(), [&context, &alias, &identifiable]() {
+                const auto& typeAlias = identifiable.getAliasType(alias);
+                if (!typeAlias.empty()) {
+                    context.getWriter().writeAttribute(TYPE, typeAlias);
+                }
+            });
+            context.getWriter().writeCharacters(context.getAnonymizer().anonymizeString(alias));
+            context.getWriter().writeEndElement();
+        }
+    });
 }
 
 }  // namespace xml
diff --git a/src/iidm/converter/xml/IidmXmlUtil.cpp b/src/iidm/converter/xml/IidmXmlUtil.cpp
index d47836e..8de64c8 100644
--- a/src/iidm/converter/xml/IidmXmlUtil.cpp
+++ b/src/iidm/converter/xml/IidmXmlUtil.cpp
@@ -103,7 +103,7 @@ void IidmXmlUtil::assertMinimumVersionIfNotDefault(bool valueIsNotDefault, const
 void IidmXmlUtil::assertMinimumVersionAndRunIfNotDefault(bool valueIsNotDefault, const std::string& rootElementName, const std::string& elementName, const char* errorMessage, const IidmXmlVersion& minVersion, const NetworkXmlWriterContext& context, const std::function<void()>& runnable) {
     if (valueIsNotDefault) {
         assertMinimumVersion(rootElementName, elementName, errorMessage, minVersion, context);
-        runnable();
+        runFromMinimumVersion(minVersion, context.getVersion(), runnable);
     }
 }
 
-- 
2.43.0


From fcb3a409a38fffb4e4c62905b25f5700ee1e0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 25/50] fix: negative and missing unsigned XML attributes are
 refused

---
 src/xml/XmlStreamReader.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 8ced40a..4779ecc 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -48,6 +48,14 @@ double toDouble(const std::string& value) {
     return result;
 }
 
+// std::stoul() accepts the negative numbers and wraps them around
+unsigned long toUnsignedLong(const std::string& value) {
+    if (value.find('-') != std::string::npos) {
+        throw std::out_of_range("toUnsignedLong");
+    }
+    return std::stoul(value);
+}
+
 XmlStreamReader::XmlStreamReader(std::istream& stream) :
     XmlStreamReader(stream, DEFAULT_ENCODING) {
 }
@@ -107,8 +115,8 @@ long XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
-    return std::stoul(XML2S(value.get()));
+    XmlString value = getAttributeValue(attributeName, true);
+    return toUnsignedLong(XML2S(value.get()));
 }
 
 std::string XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
@@ -208,7 +216,7 @@ stdcxx::optional<unsigned long> XmlStreamReader::getOptionalAttributeValue(const
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoul(XML2S(str.get()));
+        value = toUnsignedLong(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 11c940907c3f346e2e9fb1295c72b7a752019ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 26/50] fix: numeric XML attributes followed by something else
 are refused

---
 src/xml/XmlStreamReader.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 4779ecc..f685506 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -34,6 +34,27 @@ void checkNodeType(xmlTextReader& reader, const xmlReaderTypes& expected) {
     }
 }
 
+// only spaces are allowed after a number
+void checkEnd(const std::string& value, std::size_t pos) {
+    if (value.find_first_not_of(" \t\r\n", pos) != std::string::npos) {
+        throw std::invalid_argument(stdcxx::format("Invalid number: '%1%'", value));
+    }
+}
+
+int toInt(const std::string& value) {
+    std::size_t pos = 0;
+    const int result = std::stoi(value, &pos);
+    checkEnd(value, pos);
+    return result;
+}
+
+long toLong(const std::string& value) {
+    std::size_t pos = 0;
+    const long result = std::stol(value, &pos);
+    checkEnd(value, pos);
+    return result;
+}
+
 // std::stod() reports the subnormal numbers as out of range
 double toDouble(const std::string& value) {
     errno = 0;
@@ -45,6 +66,7 @@ double toDouble(const std::string& value) {
     if (errno == ERANGE && std::abs(result) > 1.0) {
         throw std::out_of_range("toDouble");
     }
+    checkEnd(value, end - value.c_str());
     return result;
 }
 
@@ -53,7 +75,10 @@ unsigned long toUnsignedLong(const std::string& value) {
     if (value.find('-') != std::string::npos) {
         throw std::out_of_range("toUnsignedLong");
     }
-    return std::stoul(value);
+    std::size_t pos = 0;
+    const unsigned long result = std::stoul(value, &pos);
+    checkEnd(value, pos);
+    return result;
 }
 
 XmlStreamReader::XmlStreamReader(std::istream& stream) :
@@ -104,13 +129,13 @@ double XmlStreamReader::getAttributeValue(const std::string& attributeName) cons
 template <>
 int XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stoi(XML2S(value.get()));
+    return toInt(XML2S(value.get()));
 }
 
 template <>
 long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stol(XML2S(value.get()));
+    return toLong(XML2S(value.get()));
 }
 
 template <>
@@ -192,7 +217,7 @@ stdcxx::optional<int> XmlStreamReader::getOptionalAttributeValue(const std::stri
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoi(XML2S(str.get()));
+        value = toInt(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From c6e507c36d998dee880f5c18528198e5ac468938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 27/50] fix: the nodes of a branch are read from XML as
 unsigned numbers

---
 include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
index 8694810..c3c34fd 100644
--- a/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
+++ b/include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx
@@ -66,11 +66,11 @@ template <typename Added, typename Adder, typename Parent>
 void AbstractConnectableXml<Added, Adder, Parent>::readNodeOrBus(BranchAdder<Adder>& adder, const NetworkXmlReaderContext& context) {
     const auto& bus1 = context.getReader().getOptionalAttributeValue<std::string>(BUS1);
     const auto& connectableBus1 = context.getReader().getOptionalAttributeValue<std::string>(CONNECTABLE_BUS1);
-    const auto& node1 = context.getReader().getOptionalAttributeValue<int>(NODE1);
+    const auto& node1 = context.getReader().getOptionalAttributeValue<unsigned long>(NODE1);
     const std::string& voltageLevelId1 = context.getReader().getAttributeValue(VOLTAGE_LEVEL_ID1);
     const auto& bus2 = context.getReader().getOptionalAttributeValue<std::string>(BUS2);
     const auto& connectableBus2 = context.getReader().getOptionalAttributeValue<std::string>(CONNECTABLE_BUS2);
-    const auto& node2 = context.getReader().getOptionalAttributeValue<int>(NODE2);
+    const auto& node2 = context.getReader().getOptionalAttributeValue<unsigned long>(NODE2);
     const std::string& voltageLevelId2 = context.getReader().getAttributeValue(VOLTAGE_LEVEL_ID2);
     if (bus1) {
         adder.setBus1(context.getAnonymizer().deanonymizeString(*bus1));
-- 
2.43.0


From 79fa03076f58a391f171e9b98168463bd7427b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 28/50] fix: a bus/breaker voltage level with switches can be
 exported anonymised

---
 src/iidm/converter/xml/VoltageLevelXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index dd4524c..881c6f5 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -177,8 +177,8 @@ void VoltageLevelXml::writeBusBreakerTopology(const VoltageLevel& voltageLevel,
         BusXml::getInstance().write(bus, voltageLevel, context);
     }
     for (const Switch& sw : voltageLevel.getBusBreakerView().getSwitches()) {
-        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(context.getAnonymizer().anonymizeString(sw.getId()));
-        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(context.getAnonymizer().anonymizeString(sw.getId()));
+        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(sw.getId());
+        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(sw.getId());
         if (!context.getFilter().test(b1) || !context.getFilter().test(b2)) {
             continue;
         }
-- 
2.43.0


From ca90bae3aa014b3aa5d1a6a073413c036a8f52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 29/50] fix: the converter stations of HVDC lines are
 anonymised

---
 src/iidm/converter/xml/HvdcLineXml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iidm/converter/xml/HvdcLineXml.cpp b/src/iidm/converter/xml/HvdcLineXml.cpp
index c59f78d..b921343 100644
--- a/src/iidm/converter/xml/HvdcLineXml.cpp
+++ b/src/iidm/converter/xml/HvdcLineXml.cpp
@@ -36,8 +36,8 @@ HvdcLine& HvdcLineXml::readRootElementAttributes(HvdcLineAdder& adder, NetworkXm
     const auto& convertersMode = Enum::fromString<HvdcLine::ConvertersMode>(context.getReader().getAttributeValue(CONVERTERS_MODE));
     const auto& activePowerSetpoint = context.getReader().getAttributeValue<double>(ACTIVE_POWER_SETPOINT);
     const auto& maxP = context.getReader().getAttributeValue<double>(MAX_P);
-    const std::string& converterStation1 = context.getReader().getAttributeValue(CONVERTER_STATION1);
-    const std::string& converterStation2 = context.getReader().getAttributeValue(CONVERTER_STATION2);
+    const std::string& converterStation1 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION1));
+    const std::string& converterStation2 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION2));
     return adder.setR(r)
         .setNominalV(nominalV)
         .setConvertersMode(convertersMode)
@@ -60,8 +60,8 @@ void HvdcLineXml::writeRootElementAttributes(const HvdcLine& line, const Network
     context.getWriter().writeAttribute(CONVERTERS_MODE, Enum::toString(line.getConvertersMode()));
     context.getWriter().writeAttribute(ACTIVE_POWER_SETPOINT, line.getActivePowerSetpoint());
     context.getWriter().writeAttribute(MAX_P, line.getMaxP());
-    context.getWriter().writeAttribute(CONVERTER_STATION1, line.getConverterStation1().get().getId());
-    context.getWriter().writeAttribute(CONVERTER_STATION2, line.getConverterStation2().get().getId());
+    context.getWriter().writeAttribute(CONVERTER_STATION1, context.getAnonymizer().anonymizeString(line.getConverterStation1().get().getId()));
+    context.getWriter().writeAttribute(CONVERTER_STATION2, context.getAnonymizer().anonymizeString(line.getConverterStation2().get().getId()));
 }
 
 }  // namespace xml
-- 
2.43.0


From 54ae9df96a0c696c0634660077b78cb05afd3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 30/50] fix: a mapping of anonymised strings can be read when a
 string contains a semicolon

---
 src/iidm/converter/SimpleAnonymizer.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..4753a39 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -10,8 +10,6 @@
 #include <istream>
 #include <ostream>
 
-#include <boost/algorithm/string.hpp>
-
 #include <powsybl/PowsyblException.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
@@ -76,14 +74,14 @@ void SimpleAnonymizer::read(std::istream& stream) {
     std::string line;
     while (std::getline(stream, line))
     {
-        std::vector<std::string> cells;
-        boost::split(cells, line, boost::is_any_of(";"));
+        // the original string may contain the separator, the anonymized one never does
+        const auto pos = line.rfind(';');
 
-        if (cells.size() != 2) {
+        if (pos == std::string::npos) {
             throw PowsyblException(stdcxx::format("Invalid line '%1%'", line));
         }
 
-        m_mapping.insert(Mapping::value_type(cells[0], cells[1]));
+        m_mapping.insert(Mapping::value_type(line.substr(0, pos), line.substr(pos + 1)));
     }
 }
 
-- 
2.43.0


From 2aa654e1a90d6622b24c1a264e3b295cfe02cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 31/50] fix: exporting an extension to a version it does not
 support raises a PowsyblException

---
 .../xml/AbstractVersionableExtensionXmlSerializer.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
index 3e6c357..8f47d5f 100644
--- a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
+++ b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
@@ -77,7 +77,12 @@ const std::string& AbstractVersionableExtensionXmlSerializer::getVersion() const
 }
 
 const std::string& AbstractVersionableExtensionXmlSerializer::getVersion(const IidmXmlVersion& networkVersion) const {
-    return m_extensionVersions.at(networkVersion.toString(".")).back();
+    const auto& strVersion = networkVersion.toString(".");
+    const auto& it = m_extensionVersions.find(strVersion);
+    if (it == m_extensionVersions.end()) {
+        throw PowsyblException(stdcxx::format("IIDM-XML version of network (%1%) is not supported by the %2% extension's XML serializer", strVersion, getExtensionName()));
+    }
+    return it->second.back();
 }
 
 }  // namespace xml
-- 
2.43.0


From 7ff4f778b73a41cbcd54fedc93d6d8198b1c66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 32/50] fix: the sections of a non-linear shunt compensator
 model can be modified

---
 include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp | 2 ++
 src/iidm/ShuntCompensatorNonLinearModel.cpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
index f22f846..7bbd95a 100644
--- a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
+++ b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
@@ -33,6 +33,8 @@ public:
         Section& setG(double g);
 
     private:
+        friend class ShuntCompensatorNonLinearModel;
+
         Section& attach(ShuntCompensator& shuntCompensator);
 
     private:
diff --git a/src/iidm/ShuntCompensatorNonLinearModel.cpp b/src/iidm/ShuntCompensatorNonLinearModel.cpp
index 8120cbd..89e12f8 100644
--- a/src/iidm/ShuntCompensatorNonLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorNonLinearModel.cpp
@@ -59,6 +59,9 @@ ShuntCompensatorNonLinearModel& ShuntCompensatorNonLinearModel::attach(ShuntComp
         throw AssertionError(stdcxx::format("ShuntCompensatorNonLinearModel already attached to %1%", m_shuntCompensator.get().getId()));
     }
     m_shuntCompensator = shuntCompensator;
+    for (Section& section : m_sections) {
+        section.attach(shuntCompensator);
+    }
     return *this;
 }
 
-- 
2.43.0


From 8511c059ce3a3a8ebec0b4ca5051b9b02087cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 33/50] fix: the edges between two vertices of a graph can be
 enumerated

---
 include/powsybl/math/UndirectedGraph.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 84112c3..987066c 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -242,11 +242,11 @@ typename UndirectedGraph<V, E>::template const_range<E> UndirectedGraph<V, E>::g
     const std::vector<std::vector<unsigned long> >& adjacencyList = getAdjacencyList();
     const std::vector<unsigned long>& adjacentEdges = adjacencyList[v1];
 
-    const auto& edgeMapper = [this](const unsigned long& e) {
-        return m_edges[e].get();
+    const auto& edgeMapper = [this](const unsigned long& e) -> const Edge& {
+        return *m_edges[e];
     };
     const auto& edgeFilter = [v1, v2](const Edge& edge) {
-        return ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
+        return ((edge.getVertex1() == v1 && edge.getVertex2() == v2) || (edge.getVertex1() == v2 && edge.getVertex2() == v1));
     };
 
     return adjacentEdges |
-- 
2.43.0


From 4cad7d6fd898230a6ea65971830aebbb3c63eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 34/50] fix: a ratio tap changer without load tap changing
 capabilities cannot refer to a terminal of another network nor dereference a
 missing one

---
 src/iidm/ValidationUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..57407aa 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -321,6 +321,9 @@ double checkRatedU2(const Validable& validable, double ratedU2) {
 }
 
 void checkRatioTapChangerRegulation(const Validable& validable, bool regulating, bool loadTapChangingCapabilities, const stdcxx::Reference<Terminal>& regulationTerminal, double targetV, const Network& network) {
+    if (regulationTerminal && !stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        throw ValidationException(validable, "regulation terminal is not part of the network");
+    }
     if (regulating) {
         if (std::isnan(targetV)) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a target voltage has to be set for a regulating ratio tap changer");
@@ -331,9 +334,6 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
         }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
-            throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
-        }
     }
 }
 
-- 
2.43.0


From 7fc6f7d90cc4c1fa74d32955a478b723b2dcd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 35/50] fix: no equipment goes on regulating the terminals of a
 removed one

---
 include/powsybl/iidm/Connectable.hpp |  6 +++
 include/powsybl/iidm/TapChanger.hpp  |  9 +++++
 include/powsybl/iidm/TapChanger.hxx  |  8 ++++
 src/iidm/Connectable.cpp             | 58 ++++++++++++++++++++++++++++
 4 files changed, 81 insertions(+)

diff --git a/include/powsybl/iidm/Connectable.hpp b/include/powsybl/iidm/Connectable.hpp
index faad86e..32bd590 100644
--- a/include/powsybl/iidm/Connectable.hpp
+++ b/include/powsybl/iidm/Connectable.hpp
@@ -59,6 +59,12 @@ protected:
 
     Terminal& getTerminal(unsigned long index);
 
+private:
+    /**
+     * No equipment can go on regulating the terminals of this connectable once it has been removed
+     */
+    void removeRegulatingTerminals(Network& network);
+
 private:
     ConnectableType m_connectableType;
 
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index a738d54..2a1f386 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -21,6 +21,7 @@ namespace powsybl {
 
 namespace iidm {
 
+class Connectable;
 class Identifiable;
 class Network;
 class Terminal;
@@ -92,6 +93,14 @@ protected:
 
     H& getParent();
 
+private:
+    friend class Connectable;
+
+    /**
+     * Stop regulating the given terminal, which is about to be removed
+     */
+    void removeRegulationTerminal(const Terminal& terminal);
+
 private:
     H& m_parent;
 
diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 3fa2e57..e9bf364 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -163,6 +163,14 @@ void TapChanger<H, C, S>::reduceVariantArraySize(unsigned long number) {
     m_targetDeadband.resize(m_targetDeadband.size() - number);
 }
 
+template<typename H, typename C, typename S>
+void TapChanger<H, C, S>::removeRegulationTerminal(const Terminal& terminal) {
+    if (m_regulationTerminal && stdcxx::areSame(m_regulationTerminal.get(), terminal)) {
+        m_regulationTerminal.reset();
+        m_regulating.assign(m_regulating.size(), false);
+    }
+}
+
 template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
diff --git a/src/iidm/Connectable.cpp b/src/iidm/Connectable.cpp
index e153070..c38a596 100644
--- a/src/iidm/Connectable.cpp
+++ b/src/iidm/Connectable.cpp
@@ -7,8 +7,16 @@
 
 #include <powsybl/iidm/Connectable.hpp>
 
+#include <powsybl/iidm/Generator.hpp>
 #include <powsybl/iidm/Network.hpp>
+#include <powsybl/iidm/PhaseTapChanger.hpp>
+#include <powsybl/iidm/RatioTapChanger.hpp>
+#include <powsybl/iidm/ShuntCompensator.hpp>
+#include <powsybl/iidm/StaticVarCompensator.hpp>
+#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
+#include <powsybl/iidm/TwoWindingsTransformer.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
+#include <powsybl/iidm/extensions/SlackTerminal.hpp>
 
 namespace powsybl {
 
@@ -113,10 +121,60 @@ void Connectable::remove() {
         VoltageLevel& voltageLevel = terminal->getVoltageLevel();
         voltageLevel.detach(*terminal);
     }
+    removeRegulatingTerminals(network);
 
     network.remove(*this);
 }
 
+void Connectable::removeRegulatingTerminals(Network& network) {
+    for (const auto& terminal : m_terminals) {
+        for (auto& generator : network.getGenerators()) {
+            if (stdcxx::areSame(generator.getRegulatingTerminal(), *terminal)) {
+                generator.setRegulatingTerminal(stdcxx::ref<Terminal>());
+            }
+        }
+        for (auto& shuntCompensator : network.getShuntCompensators()) {
+            if (stdcxx::areSame(shuntCompensator.getRegulatingTerminal(), *terminal)) {
+                shuntCompensator.setRegulatingTerminal(stdcxx::ref<Terminal>());
+            }
+        }
+        for (auto& staticVarCompensator : network.getStaticVarCompensators()) {
+            if (stdcxx::areSame(staticVarCompensator.getRegulatingTerminal(), *terminal)) {
+                staticVarCompensator.setRegulatingTerminal(stdcxx::ref<Terminal>());
+            }
+        }
+        for (auto& transformer : network.getTwoWindingsTransformers()) {
+            if (transformer.hasRatioTapChanger()) {
+                transformer.getRatioTapChanger().removeRegulationTerminal(*terminal);
+            }
+            if (transformer.hasPhaseTapChanger()) {
+                transformer.getPhaseTapChanger().removeRegulationTerminal(*terminal);
+            }
+        }
+        for (auto& transformer : network.getThreeWindingsTransformers()) {
+            for (ThreeWindingsTransformer::Leg& leg : transformer.getLegs()) {
+                if (leg.hasRatioTapChanger()) {
+                    leg.getRatioTapChanger().removeRegulationTerminal(*terminal);
+                }
+                if (leg.hasPhaseTapChanger()) {
+                    leg.getPhaseTapChanger().removeRegulationTerminal(*terminal);
+                }
+            }
+        }
+        auto slackTerminal = terminal->getVoltageLevel().findExtension<extensions::SlackTerminal>();
+        if (slackTerminal) {
+            network.getVariantManager().forEachVariant([&slackTerminal, &terminal]() {
+                if (slackTerminal.get().getTerminal() && stdcxx::areSame(slackTerminal.get().getTerminal().get(), *terminal)) {
+                    slackTerminal.get().setTerminal(stdcxx::ref<Terminal>());
+                }
+            });
+            if (slackTerminal.get().isEmpty()) {
+                terminal->getVoltageLevel().removeExtension<extensions::SlackTerminal>();
+            }
+        }
+    }
+}
+
 }  // namespace iidm
 
 }  // namespace powsybl
-- 
2.43.0


From b888b17947e6ed6dcf71e186065bfb0243cacf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 36/50] fix: attributes shared by all the variants are
 validated against all of them

---
 src/iidm/PhaseTapChanger.cpp             | 10 ++++++++--
 src/iidm/PhaseTapChangerAdder.cpp        |  9 ++++++---
 src/iidm/RatioTapChanger.cpp             | 10 ++++++++--
 src/iidm/RatioTapChangerAdder.cpp        |  9 ++++++---
 src/iidm/ShuntCompensatorLinearModel.cpp |  6 +++++-
 5 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index 6869403..dce6231 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -64,13 +64,19 @@ PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
-    checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    // the regulation mode is shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationMode]() {
+        checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    });
     m_regulationMode = regulationMode;
     return *this;
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    // the regulation terminal is shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/PhaseTapChangerAdder.cpp b/src/iidm/PhaseTapChangerAdder.cpp
index 955fb2f..7642375 100644
--- a/src/iidm/PhaseTapChangerAdder.cpp
+++ b/src/iidm/PhaseTapChangerAdder.cpp
@@ -83,9 +83,12 @@ PhaseTapChanger& PhaseTapChangerAdder::add() {
     std::unique_ptr<PhaseTapChanger> ptrPhaseTapChanger = stdcxx::make_unique<PhaseTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                *m_tapPosition, m_regulating, m_regulationMode, m_regulationValue, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    // the new tap changer is in the same state in all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasRatioTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 3bd5311..81fee18 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -56,7 +56,10 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    // the load tap changing capabilities are shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, loadTapChangingCapabilities]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    });
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
@@ -68,7 +71,10 @@ RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
 }
 
 RatioTapChanger& RatioTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    // the regulation terminal is shared by all the variants
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/RatioTapChangerAdder.cpp b/src/iidm/RatioTapChangerAdder.cpp
index d07216b..043d00c 100644
--- a/src/iidm/RatioTapChangerAdder.cpp
+++ b/src/iidm/RatioTapChangerAdder.cpp
@@ -78,9 +78,12 @@ RatioTapChanger& RatioTapChangerAdder::add() {
     std::unique_ptr<RatioTapChanger> ptrRatioTapChanger = stdcxx::make_unique<RatioTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                m_loadTapChangingCapabilities, *m_tapPosition, m_regulating, m_targetV, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    // the new tap changer is in the same state in all the variants
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasPhaseTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
diff --git a/src/iidm/ShuntCompensatorLinearModel.cpp b/src/iidm/ShuntCompensatorLinearModel.cpp
index cb9f4c1..5e3cd39 100644
--- a/src/iidm/ShuntCompensatorLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorLinearModel.cpp
@@ -73,7 +73,11 @@ ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setGPerSection(double
 }
 
 ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setMaximumSectionCount(unsigned long maximumSectionCount) {
-    checkSections(m_shuntCompensator, m_shuntCompensator.get().getSectionCount(), maximumSectionCount);
+    // the maximum section count is shared by all the variants
+    ShuntCompensator& shuntCompensator = m_shuntCompensator.get();
+    shuntCompensator.getNetwork().getVariantManager().forEachVariant([&shuntCompensator, maximumSectionCount]() {
+        checkSections(shuntCompensator, shuntCompensator.getSectionCount(), maximumSectionCount);
+    });
     m_maximumSectionCount = maximumSectionCount;
     return *this;
 }
-- 
2.43.0


From 63d953d817535ec2e6e489264425329fa7fd8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 37/50] fix: a valid measurement cannot lose its value

---
 extensions/iidm/src/Measurement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/iidm/src/Measurement.cpp b/extensions/iidm/src/Measurement.cpp
index b03f2b6..dbc6fdf 100644
--- a/extensions/iidm/src/Measurement.cpp
+++ b/extensions/iidm/src/Measurement.cpp
@@ -10,6 +10,7 @@
 #include <boost/range/adaptor/map.hpp>
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/extensions/iidm/MeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/Measurements.hpp>
 
 namespace powsybl {
@@ -127,11 +128,13 @@ Measurement& Measurement::setStandardDeviation(double standardDeviation) {
 }
 
 Measurement& Measurement::setValid(bool valid) {
+    MeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
 
 Measurement& Measurement::setValue(double value) {
+    MeasurementValidationUtil::checkValue(value, m_valid);
     m_value = value;
     return *this;
 }
-- 
2.43.0


From 4152ecb84025bfdf74e63ba0ba071e45c584c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 38/50] fix: measurement adders return the measurement they
 created

---
 extensions/iidm/src/DiscreteMeasurementAdder.cpp | 3 ++-
 extensions/iidm/src/MeasurementAdder.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index aeb5606..383aaf2 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -32,9 +32,10 @@ DiscreteMeasurement& DiscreteMeasurementAdder::add() {
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
         new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+    DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-    return m_discreteMeasurements.getDiscreteMeasurement(m_id);
+    return result;
 }
 
 DiscreteMeasurementAdder& DiscreteMeasurementAdder::putProperty(const std::string& name, const std::string& value) {
diff --git a/extensions/iidm/src/MeasurementAdder.cpp b/extensions/iidm/src/MeasurementAdder.cpp
index 8caabb7..bb02786 100644
--- a/extensions/iidm/src/MeasurementAdder.cpp
+++ b/extensions/iidm/src/MeasurementAdder.cpp
@@ -31,8 +31,9 @@ Measurement& MeasurementAdder::add() {
     MeasurementValidationUtil::checkValue(m_value, m_valid);
     MeasurementValidationUtil::checkSide(*m_type, m_side, m_measurements.getExtendable<Connectable>().get());
     std::unique_ptr<Measurement> measurement = stdcxx::make_unique<Measurement>(m_measurements, m_id, *m_type, m_properties, m_value, m_standardDeviation, m_valid, m_side);
+    Measurement& result = *measurement;
     m_measurements.add(std::move(measurement));
-    return m_measurements.getMeasurement(m_id).get();
+    return result;
 }
 
 MeasurementAdder& MeasurementAdder::putProperty(const std::string& name, const std::string& value) {
-- 
2.43.0


From 3d028bb67d6c73e1bd7a9e509af6b053f0e9a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 39/50] fix: measurements filtered by type keep their own copy
 of the type

---
 extensions/iidm/src/DiscreteMeasurements.cpp | 4 ++--
 extensions/iidm/src/Measurements.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurements.cpp b/extensions/iidm/src/DiscreteMeasurements.cpp
index 519ff06..35e7aec 100644
--- a/extensions/iidm/src/DiscreteMeasurements.cpp
+++ b/extensions/iidm/src/DiscreteMeasurements.cpp
@@ -64,7 +64,7 @@ stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements
 }
 
 stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -72,7 +72,7 @@ stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasur
 }
 
 stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
diff --git a/extensions/iidm/src/Measurements.cpp b/extensions/iidm/src/Measurements.cpp
index 6853d7a..d2c03fb 100644
--- a/extensions/iidm/src/Measurements.cpp
+++ b/extensions/iidm/src/Measurements.cpp
@@ -59,7 +59,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements() const {
 }
 
 stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -67,7 +67,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement
 }
 
 stdcxx::range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
-- 
2.43.0


From 240fd2edc0ab150d8c1681693837913a25318929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 40/50] fix: discrete measurements without value

---
 extensions/iidm/src/DiscreteMeasurement.cpp               | 8 +++-----
 extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurement.cpp b/extensions/iidm/src/DiscreteMeasurement.cpp
index ce6c1cc..7e24fa2 100644
--- a/extensions/iidm/src/DiscreteMeasurement.cpp
+++ b/extensions/iidm/src/DiscreteMeasurement.cpp
@@ -128,7 +128,7 @@ int DiscreteMeasurement::getValueAsInt() const {
 
 std::string DiscreteMeasurement::getValueAsString() const {
     if (m_valueType == ValueType::STRING) {
-        return boost::any_cast<std::string>(m_value);
+        return m_value.empty() ? "" : boost::any_cast<std::string>(m_value);
     }
     throw PowsyblException(stdcxx::format("Value type is not STRING but is: %1%", m_valueType));
 }
@@ -159,6 +159,7 @@ DiscreteMeasurement& DiscreteMeasurement::removeProperty(const std::string& name
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValid(bool valid) {
+    DiscreteMeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
@@ -171,10 +172,7 @@ DiscreteMeasurement& DiscreteMeasurement::setValue(const std::string& value) {
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValue(const char* value) {
-    DiscreteMeasurementValidationUtil::checkValue(value, isValid());
-    m_value = std::string(value);
-    m_valueType = ValueType::STRING;
-    return *this;
+    return setValue(std::string(value));
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValue(bool value) {
diff --git a/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp b/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp
index a660d64..efe51fe 100644
--- a/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementValidationUtil.cpp
@@ -62,14 +62,17 @@ void checkType(const DiscreteMeasurement::Type& type, const Identifiable& identi
 }
 
 void checkValue(const boost::any& value, bool valid) {
-    if (value.empty() && valid) {
+    const auto* str = boost::any_cast<std::string>(&value);
+    bool undefined = value.empty() || (str != nullptr && str->empty());
+    if (undefined && valid) {
         throw PowsyblException("A valid discrete measurement can not have an undefined value");
     }
 }
 
 DiscreteMeasurement::ValueType getValueType(const boost::any& value) {
     const std::type_info& info = value.type();
-    if (info == typeid(std::string)) {
+    // an undefined value is handled as an empty string
+    if (value.empty() || info == typeid(std::string)) {
         return DiscreteMeasurement::ValueType::STRING;
     }
     if (info == typeid(int)) {
-- 
2.43.0


From e6ae47356ca2da698d9ae931d7585913ea3bfbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 41/50] fix: an active power control without droop can be read
 back

---
 extensions/iidm/src/ActivePowerControlXmlSerializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
index 5d03fb5..98adca1 100644
--- a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
+++ b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
@@ -19,6 +19,7 @@
 #include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
 #include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
 
+#include <powsybl/stdcxx/math.hpp>
 #include <powsybl/xml/XmlStreamReader.hpp>
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
@@ -36,7 +37,7 @@ ActivePowerControlXmlSerializer::ActivePowerControlXmlSerializer() :
 
 Extension& ActivePowerControlXmlSerializer::read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const {
     const auto& participate = context.getReader().getAttributeValue<bool>("participate");
-    const auto& droop = context.getReader().getAttributeValue<double>("droop");
+    const auto& droop = context.getReader().getOptionalAttributeValue("droop", stdcxx::nan());
 
     extendable.newExtension<ActivePowerControlAdder>().withParticipate(participate).withDroop(droop).add();
     return extendable.getExtension<ActivePowerControl>();
-- 
2.43.0


From 7c53cfbe3aad8957fd93bd741df544fbb714d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 42/50] fix: a replaced extension is no longer found by its
 type

---
 src/iidm/Extendable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..f954e2a 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -31,8 +31,8 @@ void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
     if (it != m_extensionsByName.end()) {
         // Clean the existing extension
         it->second->setExtendable(stdcxx::ref<Extendable>());
-        m_extensionsByName.erase(extension->getName());
-        m_extensionsByType.erase(extension->getType());
+        m_extensionsByType.erase(it->second->getType());
+        m_extensionsByName.erase(it);
     }
 
     extension->setExtendable(*this);
-- 
2.43.0


From d6cebda3c56513c54d7b2c114c7b8b306c90f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 43/50] fix: an extendable that has extensions can be moved

---
 include/powsybl/iidm/Extension.hpp | 2 ++
 src/iidm/Extendable.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index e86363a..687f38c 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -56,6 +56,8 @@ private:
     virtual void assertExtendable(const stdcxx::Reference<Extendable>& extendable) const = 0;
 
 private:
+    friend class Extendable;
+
     stdcxx::Reference<Extendable> m_extendable;
 };
 
diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index f954e2a..95cd3a5 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -22,7 +22,8 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
     m_extensionsByType(std::move(extendable.m_extensionsByType)) {
 
     for (auto& it : m_extensionsByName) {
-        it.second->setExtendable(*this);
+        // not setExtendable: the extension is still associated with the moved extendable, and this one is not built yet
+        it.second->m_extendable = stdcxx::ref(*this);
     }
 }
 
-- 
2.43.0


From c3720ab2a0f8be2c511c0f287849614c66b4e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 44/50] fix: an extension that cannot be serialized does not
 make the export fail

---
 src/iidm/converter/xml/NetworkXml.cpp | 39 +++++++++++++++------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 1fbf7cb..7e61310 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -76,15 +76,14 @@ stdcxx::CReference<ExtensionXmlSerializer> getExtensionSerializer(const ExportOp
         serializer = stdcxx::cref(extensionProviders.findProviderOrThrowException(extension.getName()));
     } else {
         serializer = extensionProviders.findProvider(extension.getName());
-        if (serializer) {
-            if (!serializer.get().isSerializable(extension)) {
-                serializer.reset();
-            }
-        } else {
+        if (!serializer) {
             logging::Logger& logger = logging::LoggerFactory::getLogger<NetworkXml>();
             logger.warn("No extension XML serializer for %1%", extension.getName());
         }
     }
+    if (serializer && !serializer.get().isSerializable(extension)) {
+        serializer.reset();
+    }
 
     return serializer;
 }
@@ -166,20 +165,15 @@ void writeExtensionNamespaces(const Network& network, NetworkXmlWriterContext& c
     }
 }
 
-void writeExtension(const Extension& extension, NetworkXmlWriterContext& context) {
+void writeExtension(const Extension& extension, const ExtensionXmlSerializer& serializer, NetworkXmlWriterContext& context) {
     powsybl::xml::XmlStreamWriter& writer = context.getWriter();
-    stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
-    if (!serializer) {
-        throw AssertionError(stdcxx::format("Extension XML Serializer of %1% should not be null", extension.getName()));
-    }
-
     const std::string& version = context.getExtensionVersion(extension.getName());
     if (!version.empty()) {
-        serializer.get().checkExtensionVersionSupported(version);
+        serializer.checkExtensionVersionSupported(version);
     }
 
-    writer.writeStartElement(serializer.get().getNamespacePrefix(), extension.getName());
-    serializer.get().write(extension, context);
+    writer.writeStartElement(serializer.getNamespacePrefix(), extension.getName());
+    serializer.write(extension, context);
     writer.writeEndElement();
 }
 
@@ -188,13 +182,24 @@ void writeExtensions(const Network& network, NetworkXmlWriterContext& context) {
         if (!context.isExportedEquipment(identifiable.getId()) || boost::empty(identifiable.getExtensions()) || !context.getOptions().hasAtLeastOneExtension(identifiable.getExtensions())) {
             continue;
         }
-        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
-        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+        // an extension that cannot be serialized is not written
+        std::vector<std::pair<std::reference_wrapper<const Extension>, stdcxx::CReference<ExtensionXmlSerializer>>> extensions;
         for (const auto& extension : identifiable.getExtensions()) {
             if (context.getOptions().withExtension(extension.getName())) {
-                writeExtension(extension, context);
+                stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
+                if (serializer) {
+                    extensions.emplace_back(extension, serializer);
+                }
             }
         }
+        if (extensions.empty()) {
+            continue;
+        }
+        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
+        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+        for (const auto& it : extensions) {
+            writeExtension(it.first.get(), it.second.get(), context);
+        }
         context.getWriter().writeEndElement();
     }
 }
-- 
2.43.0


From feaa9ec875fcec4ae9271c5bdd3efdfaf6a423a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 45/50] fix: names of countries have their opening parenthesis

---
 src/iidm/Country.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/iidm/Country.cpp b/src/iidm/Country.cpp
index 95a732c..64ec59f 100644
--- a/src/iidm/Country.cpp
+++ b/src/iidm/Country.cpp
@@ -66,7 +66,7 @@ std::string getCountryName(const Country& country) {
         u8"CHILE",
         u8"CHINA",
         u8"CHRISTMAS ISLAND",
-        u8"COCOS  = KEELING) ISLANDS",
+        u8"COCOS (KEELING) ISLANDS",
         u8"COLOMBIA",
         u8"COMOROS",
         u8"CONGO",
@@ -90,7 +90,7 @@ std::string getCountryName(const Country& country) {
         u8"ERITREA",
         u8"ESTONIA",
         u8"ETHIOPIA",
-        u8"FALKLAND ISLANDS  = MALVINAS)",
+        u8"FALKLAND ISLANDS (MALVINAS)",
         u8"FAROE ISLANDS",
         u8"FIJI",
         u8"FINLAND",
@@ -116,7 +116,7 @@ std::string getCountryName(const Country& country) {
         u8"GUYANA",
         u8"HAITI",
         u8"HEARD ISLAND AND MCDONALD ISLANDS",
-        u8"HOLY SEE  = VATICAN CITY STATE)",
+        u8"HOLY SEE (VATICAN CITY STATE)",
         u8"HONDURAS",
         u8"HONG KONG",
         u8"HUNGARY",
@@ -208,7 +208,7 @@ std::string getCountryName(const Country& country) {
         u8"SAINT HELENA, ASCENSION AND TRISTAN DA CUNHA",
         u8"SAINT KITTS AND NEVIS",
         u8"SAINT LUCIA",
-        u8"SAINT MARTIN  = FRENCH PART)",
+        u8"SAINT MARTIN (FRENCH PART)",
         u8"SAINT PIERRE AND MIQUELON",
         u8"SAINT VINCENT AND THE GRENADINES",
         u8"SAMOA",
@@ -220,7 +220,7 @@ std::string getCountryName(const Country& country) {
         u8"SEYCHELLES",
         u8"SIERRA LEONE",
         u8"SINGAPORE",
-        u8"SINT MAARTEN  = DUTCH PART)",
+        u8"SINT MAARTEN (DUTCH PART)",
         u8"SLOVAKIA",
         u8"SLOVENIA",
         u8"SOLOMON ISLANDS",
-- 
2.43.0


From c5e8b4f528dd4017a25bb2d093576db973e1d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 46/50] fix: types of converter stations have their own names

---
 src/iidm/HvdcConverterStation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/HvdcConverterStation.cpp b/src/iidm/HvdcConverterStation.cpp
index b89bd82..eb491da 100644
--- a/src/iidm/HvdcConverterStation.cpp
+++ b/src/iidm/HvdcConverterStation.cpp
@@ -52,8 +52,8 @@ namespace Enum {
 template <>
 const std::initializer_list<std::string>& getNames<HvdcConverterStation::HvdcType>() {
     static std::initializer_list<std::string> s_typeNames {
-            "LCC",
-            "VSC"
+            "VSC",
+            "LCC"
     };
     return s_typeNames;
 }
-- 
2.43.0


From 585e1212ace76ef9830d3579b0fae6c572e8dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 47/50] fix: a date followed by another text is refused

---
 src/stdcxx/DateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdcxx/DateTime.cpp b/src/stdcxx/DateTime.cpp
index 1f36c57..ab9287e 100644
--- a/src/stdcxx/DateTime.cpp
+++ b/src/stdcxx/DateTime.cpp
@@ -28,7 +28,7 @@ DateTime DateTime::parse(const std::string& date) {
     buffer.imbue(std::locale(std::locale::classic(), facet.release()));
 
     std::string dummy;
-    if ((buffer >> localDateTime) && (buffer >> dummy).eof()) {
+    if ((buffer >> localDateTime) && !(buffer >> dummy)) {
         return DateTime(localDateTime);
     }
 
-- 
2.43.0


From 82606c041d05f48131c9b2d83e277b9052c4d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 48/50] fix: a message that has a % is logged as it is

---
 include/powsybl/logging/Logger.hpp | 35 ++++++++++++++++++++++++++++++
 include/powsybl/logging/Logger.hxx | 30 +++++++++++++++++++++++++
 2 files changed, 65 insertions(+)

diff --git a/include/powsybl/logging/Logger.hpp b/include/powsybl/logging/Logger.hpp
index b21378b..250e6f6 100644
--- a/include/powsybl/logging/Logger.hpp
+++ b/include/powsybl/logging/Logger.hpp
@@ -23,6 +23,13 @@ class Logger {
 public:
     virtual ~Logger() noexcept = default;
 
+    /**
+     * Log a debug message, as is
+     *
+     * @param message the message to log
+     */
+    void debug(const std::string& message);
+
     /**
      * Log a debug message
      *
@@ -34,6 +41,13 @@ public:
     template <typename... T>
     void debug(const std::string& message, const T&... args);
 
+    /**
+     * Log an error message, as is
+     *
+     * @param message the message to log
+     */
+    void error(const std::string& message);
+
     /**
      * Log an error message
      *
@@ -45,6 +59,13 @@ public:
     template <typename... T>
     void error(const std::string& message, const T&... args);
 
+    /**
+     * Log an information message, as is
+     *
+     * @param message the message to log
+     */
+    void info(const std::string& message);
+
     /**
      * Log an information message
      *
@@ -91,6 +112,13 @@ public:
      */
     virtual bool isWarnEnabled() const = 0;
 
+    /**
+     * Log a trace message, as is
+     *
+     * @param message the message to log
+     */
+    void trace(const std::string& message);
+
     /**
      * Log a trace message
      *
@@ -102,6 +130,13 @@ public:
     template <typename... T>
     void trace(const std::string& message, const T&... args);
 
+    /**
+     * Log a warning message, as is
+     *
+     * @param message the message to log
+     */
+    void warn(const std::string& message);
+
     /**
      * Log a warning message
      *
diff --git a/include/powsybl/logging/Logger.hxx b/include/powsybl/logging/Logger.hxx
index 4f71b23..8bd8782 100644
--- a/include/powsybl/logging/Logger.hxx
+++ b/include/powsybl/logging/Logger.hxx
@@ -16,6 +16,12 @@ namespace powsybl {
 
 namespace logging {
 
+inline void Logger::debug(const std::string& message) {
+    if (isDebugEnabled()) {
+        log(Level::DEBUG, message);
+    }
+}
+
 template <typename... T>
 void Logger::debug(const std::string& message, const T&... args) {
     if (isDebugEnabled()) {
@@ -23,6 +29,12 @@ void Logger::debug(const std::string& message, const T&... args) {
     }
 }
 
+inline void Logger::error(const std::string& message) {
+    if (isErrorEnabled()) {
+        log(Level::ERROR, message);
+    }
+}
+
 template <typename... T>
 void Logger::error(const std::string& message, const T&... args) {
     if (isErrorEnabled()) {
@@ -30,6 +42,12 @@ void Logger::error(const std::string& message, const T&... args) {
     }
 }
 
+inline void Logger::info(const std::string& message) {
+    if (isInfoEnabled()) {
+        log(Level::INFO, message);
+    }
+}
+
 template <typename... T>
 void Logger::info(const std::string& message, const T&... args) {
     if (isInfoEnabled()) {
@@ -37,6 +55,12 @@ void Logger::info(const std::string& message, const T&... args) {
     }
 }
 
+inline void Logger::trace(const std::string& message) {
+    if (isTraceEnabled()) {
+        log(Level::TRACE, message);
+    }
+}
+
 template <typename... T>
 void Logger::trace(const std::string& message, const T&... args) {
     if (isTraceEnabled()) {
@@ -44,6 +68,12 @@ void Logger::trace(const std::string& message, const T&... args) {
     }
 }
 
+inline void Logger::warn(const std::string& message) {
+    if (isWarnEnabled()) {
+        log(Level::WARN, message);
+    }
+}
+
 template <typename... T>
 void Logger::warn(const std::string& message, const T&... args) {
     if (isWarnEnabled()) {
-- 
2.43.0


From 29fdb06d252a111ce4adda5a48e3b22c2c5fbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 49/50] fix: a discrete measurement needs a type

---
 .../iidm/extensions/iidm/DiscreteMeasurementAdder.hpp  |  2 +-
 extensions/iidm/src/DiscreteMeasurementAdder.cpp       | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
index 904e835..85309d9 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
@@ -80,7 +80,7 @@ private:
 
     std::string m_id;
 
-    DiscreteMeasurement::Type m_type;
+    stdcxx::optional<DiscreteMeasurement::Type> m_type;
 
     stdcxx::optional<DiscreteMeasurement::TapChanger> m_tapChanger;
 
diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index 383aaf2..dbec379 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
 
+#include <powsybl/PowsyblException.hpp>
 #include <powsybl/iidm/Identifiable.hpp>
 #include <powsybl/iidm/extensions/iidm/DiscreteMeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
@@ -26,12 +27,15 @@ DiscreteMeasurementAdder::DiscreteMeasurementAdder(DiscreteMeasurements& discret
 
 DiscreteMeasurement& DiscreteMeasurementAdder::add() {
     DiscreteMeasurementValidationUtil::checkId(m_id, m_discreteMeasurements);
-    DiscreteMeasurementValidationUtil::checkType(m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
-    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    if (!m_type) {
+        throw PowsyblException("Discrete measurement type can not be null");
+    }
+    DiscreteMeasurementValidationUtil::checkType(*m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, *m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
     DiscreteMeasurementValidationUtil::checkValue(m_value, m_valid);
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
-        new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+        new DiscreteMeasurement(m_discreteMeasurements, m_id, *m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
     DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-- 
2.43.0


From 4414086bde7c0de00e6caf6c144b78a6fff6ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 50/50] fix: a UTF-16 document has one byte order mark

---
 src/xml/XmlStreamWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 9f80944..28411bb 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -162,7 +162,9 @@ void XmlStreamWriter::writeStartDocument(const std::string& encoding, const std:
         xmlFreeTextWriter(static_cast<xmlTextWriterPtr>(ptr));
     };
 
-    xmlOutputBufferPtr buffer = xmlOutputBufferCreateIO(writeCallback, closeCallback, this, encoder);
+    // the encoder is set by xmlTextWriterStartDocument(): set twice, it would write the byte order mark twice
+    xmlCharEncCloseFunc(encoder);
+    xmlOutputBufferPtr buffer = xmlOutputBufferCreateIO(writeCallback, closeCallback, this, nullptr);
 
     m_writer = XmlStreamWriterPtr(xmlNewTextWriter(buffer), deleteWriterCallback);
 
-- 
2.43.0

