#pragma once
#include <ros/time.h>
#include <ros/console.h>
#include <string>
#include <vector>
