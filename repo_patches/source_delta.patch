From 1a601f42a5b150899746935af8fdf03b8e85e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 1/6] fix: Grid::Clear and the block locks cover every block
 when the y extent exceeds the x extent

---
 src/OpenMps/Grid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..462e2a5 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -166,7 +166,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -195,7 +195,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -229,7 +229,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From bcf91328ffaeb1d7823cdbfdc82ef5182d0d9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 2/6] fix: disabled particles are neither moved by the wall
 callback nor limit the time step

---
 src/OpenMps/Computer.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..e294ce2 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -760,16 +760,17 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
-			// 最大速度を取得
-			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
-				[](const Particle& base, const Particle& target)
+			// 最大速度を取得（無効粒子は除く）
+			auto maxUU = 0.0;
+			for (const auto& particle : particles)
 			{
-				const auto& baseU = base.U();
-				const auto& targetU = target.U();
-				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
-			});
-			const auto maxU = ublas::norm_2(maxUParticle.U());
-
+				if (particle.TYPE() != Particle::Type::Disabled)
+				{
+					const auto& u = particle.U();
+					maxUU = std::max(maxUU, ublas::inner_prod(u, u));
+				}
+			}
+			const auto maxU = std::sqrt(maxUU);
 
 			// CFL条件より時間刻みを決定する
 			const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
@@ -1009,8 +1010,8 @@ namespace { namespace OpenMps
 					particles[i].U() += a[i] * dt;
 					particles[i].X() += particles[i].U()* dt;
 				}
-				// 壁の位置
-				else
+				// 壁の位置（無効粒子は動かさない）
+				else if(particles[i].TYPE() != Particle::Type::Disabled)
 				{
 					const Vector x = positionWall(i, t, dt);
 					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分
-- 
2.43.0


From d4b3ca56f24bdf6604fe817fea21df2fdffde244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 3/6] fix: report an overfull block like any other computation
 error instead of terminating

---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..172bbdf 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -384,7 +384,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::exception& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From 6ba21580fedecae10313fe19a62f39dd559573b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 4/6] fix: reject an empty particle list, short rows and a
 missing particle format instead of reading out of range

---
 src/OpenMps/Main.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 172bbdf..f6c9090 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -76,7 +76,11 @@ namespace
 
 		// 先頭の空行は飛ばす
 		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
+		for (; (itr != input.cend()) && (itr->size() == 0); ++itr) {}
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("Input csv is empty");
+		}
 
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
@@ -113,10 +117,12 @@ namespace
 			{ "p", HEADER_NOT_FOUND },
 			{ "n", HEADER_NOT_FOUND },
 		});
+		std::size_t headerCount = 0;
 		{
 			// 先頭行を読み込み
 			auto& line = *itr; ++itr;
 			const auto headerItems = GetItems(line);
+			headerCount = headerItems.size();
 			for (auto i = decltype(headerItems.size())(0); i < headerItems.size(); i++)
 			{
 				const auto name = headerItems[i];
@@ -150,6 +156,12 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
+				// 列が足りない行はエラー
+				if (data.size() < headerCount)
+				{
+					throw std::runtime_error("Too few items in a line of input csv");
+				}
+
 				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
 
 				// 位置ベクトル
@@ -186,7 +198,7 @@ namespace
 	inline decltype(auto) LoadParticles(const boost::property_tree::ptree& xml)
 	{
 		// 粒子データの読み込み
-		const auto type = xml.get_optional<std::string>("openmps.particles.<xmlattr>.type").get();
+		const auto type = xml.get<std::string>("openmps.particles.<xmlattr>.type");
 		if (type == "csv")
 		{
 			auto&& txt = xml.get<std::string>("openmps.particles");
-- 
2.43.0


From 736d64ed6e7ce9621c4b37a3d7436245d5173dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 5/6] fix: report a result file that could not be written

---
 src/OpenMps/Main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index f6c9090..6f06d38 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -63,6 +63,12 @@ namespace
 			}
 		}
 
+		// 書き込めていなければエラー
+		if (!output)
+		{
+			throw std::runtime_error("Can't write " + filename);
+		}
+
 		return nonDisalbeCount;
 	}
 
-- 
2.43.0


From a4d8f080220a5d42b10a77d856814b0474a2188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 6/6] fix: reject unknown particle types in the input csv

---
 src/OpenMps/Main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 6f06d38..b064887 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -168,7 +168,14 @@ namespace
 					throw std::runtime_error("Too few items in a line of input csv");
 				}
 
-				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
+				// 存在しない種類の粒子はエラー
+				using TypeValue = std::underlying_type_t<OpenMps::Particle::Type>;
+				const auto type = stov<TypeValue>(data[header["Type"]]);
+				if ((type < static_cast<TypeValue>(OpenMps::Particle::Type::IncompressibleNewton)) || (static_cast<TypeValue>(OpenMps::Particle::Type::Disabled) < type))
+				{
+					throw std::runtime_error("Illegal particle type in input csv");
+				}
+				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(type));
 
 				// 位置ベクトル
 				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
-- 
2.43.0

