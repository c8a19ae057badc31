# mkdemo NAME PROP "needs" "breaks" ; stdin demo.cpp
N=$1; D=/verif/seeded/$N; mkdir -p $D; cat > $D/demo.cpp
python3 - "$@" <<'P'
import sys,json
n,p,needs,br=sys.argv[1:5]
json.dump({"property":p,"needs":needs,"what_it_breaks":br},open(f'/verif/seeded/{n}/meta.json','w'),indent=1)
P
IMG="${5:-}"
cat > $D/demo.sh <<S
#!/bin/bash
# exit 0 when the guarantee holds
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
g++ -std=c++17 -O1 -w -Irct_optimizations/include -Irct_common/include -Irct_image_tools/include \\
  -isystem /usr/include/eigen3 -isystem /usr/include/opencv4 "\$D/demo.cpp" -o "\$T/demo" \\
  -L_build ${IMG:+-lrct_image_tools -lopencv_core -lopencv_imgproc -lopencv_calib3d -lopencv_imgcodecs -lopencv_features2d -lopencv_aruco} -lrct_optimizations -lceres -lglog -lyaml-cpp || exit 3
cd "\$T" && LD_LIBRARY_PATH="\$OLDPWD/_build" timeout 200 "\$T/demo"
S
